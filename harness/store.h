// writing a small index to disk with the real serialisers
#pragma once
#include "sym.h"
#include <string.h>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "compress_integer.h"
#include "query_term.h"
using namespace JASS;
typedef index_postings_impact::impact_type impact_t; typedef compress_integer::integer integer;
static const serialise_jass_v1::jass_v1_codex CODEX[] = {serialise_jass_v1::uncompressed, serialise_jass_v1::elias_gamma_simd_vb, serialise_jass_v1::elias_gamma_simd, serialise_jass_v1::elias_delta_simd, serialise_jass_v1::qmx};
static const size_t MOST = 520;
struct list { std::string word; size_t n = 0; integer id[MOST]; impact_t impact[MOST]; };
static slice sl(const std::string &s) { return slice((void *)s.data(), s.size()); }
struct shape { size_t version, codec, alignment; };
static shape pick() { shape s; static const size_t align[] = {1, 4, 16, 8, 2, 3}; s.version = 1 + sym_choose(sym_arg("versions", 2), "version"); s.codec = sym_arg("codec", 9); if (s.codec >= 5) s.codec = sym_choose(s.codec - 4, "codec"); s.alignment = align[sym_choose(sym_arg("alignments", 2), "alignment")]; return s; }
static void save(const shape &s, size_t docs, std::vector<list> &lists, const std::vector<std::string> &keys) {
	std::unique_ptr<serialise_jass_v1> w(s.version == 1 ? new serialise_jass_v1(docs, CODEX[s.codec], (int8_t)s.alignment) : new serialise_jass_v2(docs, CODEX[s.codec], (int8_t)s.alignment));
	allocator_pool pool(4096); index_postings unused(pool); index_manager::delegate &d = *w;
	for (auto &l : lists) { static integer ids[MOST]; static impact_t tf[MOST]; for (size_t i = 0; i < l.n; i++) { ids[i] = l.id[i]; tf[i] = l.impact[i]; } d(sl(l.word), unused, (integer)l.n, ids, tf); }
	char none[] = "-"; d(0, slice(none)); for (size_t i = 0; i < keys.size(); i++) d(i + 1, sl(keys[i])); d.finish();
}
