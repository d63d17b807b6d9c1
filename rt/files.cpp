// In-memory model of the stdio and POSIX file calls JASS uses (symbolic build only; native replays use real files in a scratch directory).
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/types.h>
namespace {
struct vfile { char name[120]; unsigned char *data; size_t size, cap; };
struct vstream { vfile *f; size_t pos; bool append, writes, reads, eof, used; unsigned char back[4]; size_t nback; };
const size_t FILES = 24, STREAMS = 24, PAGE = 4096;
vfile *files[FILES]; vstream streams[STREAMS]; struct { void *p; } maps[16]; char std_in, std_out, std_err;
const char *base(const char *n) { while (n[0] == '.' && n[1] == '/') n += 2; return n; }
vfile *find(const char *n) { n = base(n); for (size_t i = 0; i < FILES; i++) if (files[i] && strcmp(files[i]->name, n) == 0) return files[i]; return nullptr; }
vfile *make(const char *n) { n = base(n); for (size_t i = 0; i < FILES; i++) if (!files[i]) { vfile *f = (vfile *)calloc(1, sizeof(vfile)); strncpy(f->name, n, sizeof(f->name) - 1); return files[i] = f; } return nullptr; }
vstream *st(FILE *fp) { return (vstream *)fp; }
bool standard(FILE *fp) { return (char *)fp == &std_in || (char *)fp == &std_out || (char *)fp == &std_err; }
void grow(vfile *f, size_t need) { if (need <= f->cap) return; size_t cap = f->cap ? f->cap * 2 : 256; while (cap < need) cap *= 2; unsigned char *d = (unsigned char *)malloc(cap); if (f->size) memcpy(d, f->data, f->size); memset(d + f->size, 0, cap - f->size); free(f->data); f->data = d; f->cap = cap; }
}
extern "C" {
FILE *stdin = (FILE *)&std_in, *stdout = (FILE *)&std_out, *stderr = (FILE *)&std_err;
FILE *fopen(const char *name, const char *mode) {
	bool plus = strchr(mode, '+') != nullptr; vfile *f = find(name); if (*mode == 'r' && !f) { return nullptr; } if (!*base(name)) return nullptr;
	if (!f) f = make(name); if (!f) return nullptr; if (*mode == 'w') f->size = 0;
	for (size_t i = 0; i < STREAMS; i++) if (!streams[i].used) { vstream &s = streams[i]; s = vstream(); s.used = true; s.f = f; s.append = *mode == 'a'; s.reads = *mode == 'r' || plus; s.writes = *mode != 'r' || plus; return (FILE *)&s; } return nullptr;
}
int fclose(FILE *fp) { if (standard(fp)) return 0; vstream *s = st(fp); int r = s->used ? 0 : -1; s->used = false; return r; }
size_t fwrite(const void *p, size_t size, size_t n, FILE *fp) {
	if (standard(fp)) return n; vstream *s = st(fp); size_t bytes = size * n; if (!s->writes || !bytes) return 0; if (s->append) s->pos = s->f->size; if (s->pos > s->f->size) { grow(s->f, s->pos); memset(s->f->data + s->f->size, 0, s->pos - s->f->size); s->f->size = s->pos; }
	grow(s->f, s->pos + bytes); memcpy(s->f->data + s->pos, p, bytes); s->pos += bytes; if (s->pos > s->f->size) s->f->size = s->pos; return n;
}
size_t fread(void *p, size_t size, size_t n, FILE *fp) {
	if (standard(fp)) return 0; vstream *s = st(fp); size_t want = size * n, got = 0; unsigned char *d = (unsigned char *)p; if (!s->reads || !want) return 0; while (s->nback && got < want) d[got++] = s->back[--s->nback];
	size_t left = s->pos < s->f->size ? s->f->size - s->pos : 0, take = want - got < left ? want - got : left; if (take) memcpy(d + got, s->f->data + s->pos, take); s->pos += take; got += take; if (got < want) s->eof = true; return got / size;
}
int fgetc(FILE *fp) { unsigned char c; return fread(&c, 1, 1, fp) == 1 ? c : -1; }
int getc(FILE *fp) { return fgetc(fp); }
int ungetc(int c, FILE *fp) { if (c < 0) return -1; vstream *s = st(fp); s->eof = false; s->back[s->nback++] = (unsigned char)c; return c; }
int fputc(int c, FILE *fp) { unsigned char b = (unsigned char)c; return fwrite(&b, 1, 1, fp) == 1 ? b : -1; }
int fputs(const char *t, FILE *fp) { size_t n = strlen(t); if (n) fwrite(t, 1, n, fp); return 1; }
char *fgets(char *t, int n, FILE *fp) { int i = 0; while (i < n - 1) { int c = fgetc(fp); if (c < 0) break; t[i++] = (char)c; if (c == '\n') break; } if (i == 0) return nullptr; t[i] = 0; return t; }
int fseeko(FILE *fp, off_t at, int from) { if (standard(fp)) return -1; vstream *s = st(fp); off_t to = from == SEEK_SET ? at : from == SEEK_CUR ? (off_t)(s->pos - s->nback) + at : (off_t)s->f->size + at; if (to < 0) return -1; s->pos = (size_t)to; s->nback = 0; s->eof = false; return 0; }
int fseek(FILE *fp, long at, int from) { return fseeko(fp, at, from); }
off_t ftello(FILE *fp) { if (standard(fp)) return -1; return (off_t)(st(fp)->pos - st(fp)->nback); }
long ftell(FILE *fp) { return ftello(fp); }
void rewind(FILE *fp) { fseeko(fp, 0, SEEK_SET); }
int feof(FILE *fp) { return standard(fp) ? 1 : st(fp)->eof; }
int ferror(FILE *) { return 0; }
void clearerr(FILE *fp) { if (!standard(fp)) st(fp)->eof = false; }
int setvbuf(FILE *, char *, int, size_t) { return 0; }
int fileno(FILE *fp) { return standard(fp) ? 0 : 3 + (int)(st(fp) - streams); }
static int details(vfile *f, struct stat *s) { memset(s, 0, sizeof(*s)); if (!f) return -1; s->st_size = (off_t)f->size; s->st_mode = S_IFREG | 0644; return 0; }
int fstat(int fd, struct stat *s) { return fd < 3 || fd >= 3 + (int)STREAMS || !streams[fd - 3].used ? -1 : details(streams[fd - 3].f, s); }
int stat(const char *n, struct stat *s) { return details(find(n), s); }
int open(const char *n, int flags, ...) { if ((flags & 3) != 0) return -1; FILE *fp = fopen(n, "rb"); return fp ? fileno(fp) : -1; }
int close(int fd) { if (fd < 3 || fd >= 3 + (int)STREAMS || !streams[fd - 3].used) return -1; streams[fd - 3].used = false; return 0; }
ssize_t read(int fd, void *p, size_t n) { if (fd < 3 || fd >= 3 + (int)STREAMS || !streams[fd - 3].used) return -1; return (ssize_t)fread(p, 1, n, (FILE *)&streams[fd - 3]); }
void *mmap(void *, size_t n, int, int, int fd, off_t) { // whole pages: the rest of the last page reads as zero
	if (n == 0 || fd < 3 || fd >= 3 + (int)STREAMS || !streams[fd - 3].used) return (void *)-1; vfile *f = streams[fd - 3].f; size_t whole = (n + PAGE - 1) / PAGE * PAGE; unsigned char *p = (unsigned char *)calloc(1, whole); if (f->size) memcpy(p, f->data, f->size < n ? f->size : n); return p;
}
int munmap(void *p, size_t n) { if (!p || !n) return -1; free(p); return 0; }
int unlink(const char *n) { n = base(n); for (size_t i = 0; i < FILES; i++) if (files[i] && strcmp(files[i]->name, n) == 0) { files[i] = nullptr; return 0; } return -1; }
int remove(const char *n) { return unlink(n); }
}
