/* Strings of gigabytes: a mapping of one small file again and again, with private pages at both ends: head, n times c, tail. */
#ifndef VAST_H
#define VAST_H
#include <sys/mman.h>
#include <unistd.h>
#include <string.h>
static char* vast(int c, size_t n, const char* head, const char* tail)
{
    size_t step = 16 << 20, h = strlen(head), t = strlen(tail), sz = (h + n + t + 1 + step) / step * step, o; int fd; char* q; char* p;
    fd = memfd_create("path", 0); if(fd < 0 || ftruncate(fd, step) != 0) return NULL;
    q = mmap(NULL, step, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if(q == MAP_FAILED) return NULL;
    memset(q, c, step); munmap(q, step);
    p = mmap(NULL, sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return NULL;
    for(o = 0; o < sz; o += step) if(mmap(p + o, step, PROT_READ | (o == 0 || o + step >= sz - step ? PROT_WRITE : 0), MAP_PRIVATE | MAP_NORESERVE | MAP_FIXED, fd, 0) == MAP_FAILED) return NULL;
    close(fd); memcpy(p, head, h); memcpy(p + h + n, tail, t + 1);
    return p;
}
static void vast_free(char* p, size_t n, const char* head, const char* tail) { size_t step = 16 << 20; munmap(p, (strlen(head) + n + strlen(tail) + 1 + step) / step * step); }
#endif
