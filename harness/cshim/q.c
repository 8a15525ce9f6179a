#include <quadmath.h>
typedef __float128 q;
void qs_from(double a, q *r) { *r = a; }
double qs_to(const q *a) { return (double)*a; }
void qs_add(const q *a, const q *b, q *r) { *r = *a + *b; }
void qs_sub(const q *a, const q *b, q *r) { *r = *a - *b; }
void qs_mul(const q *a, const q *b, q *r) { *r = *a * *b; }
void qs_div(const q *a, const q *b, q *r) { *r = *a / *b; }
void qs_neg(const q *a, q *r) { *r = -*a; }
/* -1, 0, 1, or 2 when unordered */
int qs_cmp(const q *a, const q *b) { return *a < *b ? -1 : *a > *b ? 1 : *a == *b ? 0 : 2; }
void qs_fn(int f, const q *a, q *r)
{
    switch (f) {
    case 0: *r = sqrtq(*a); break;
    case 1: *r = sinq(*a); break;
    case 2: *r = cosq(*a); break;
    case 3: *r = tanq(*a); break;
    case 4: *r = asinq(*a); break;
    case 5: *r = acosq(*a); break;
    case 6: *r = atanq(*a); break;
    case 7: *r = floorq(*a); break;
    case 8: *r = fabsq(*a); break;
    }
}
void qs_atan2(const q *y, const q *x, q *r) { *r = atan2q(*y, *x); }
void qs_pi(q *r) { *r = M_PIq; }

/* progress slots shared between the worker and its supervisor */
#include <fcntl.h>
#include <stddef.h>
#include <sys/mman.h>
#include <unistd.h>
void *progress_map(const char *path, size_t len) {
    int fd = open(path, O_RDWR);
    if (fd < 0) return NULL;
    void *p = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    return p == MAP_FAILED ? NULL : p;
}
