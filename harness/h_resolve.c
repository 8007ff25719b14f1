/* interfaces and addresses: models of getifaddrs, getaddrinfo, sockets */
#define HEAP_SLOTS  16
#define HEAP_SIZE   4400
#include "vf.h"
#include "vf_heap.h"
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/param.h>
#include <sys/ioctl.h>
#include <net/if.h>
#include <ctype.h>
#include <netdb.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdio.h>
#include <ifaddrs.h>
#include "vf_printf.h"

struct vf_storage { sa_family_t ss_family; char ss_pad[126]; };
#define sockaddr_storage    vf_storage

#define MAXA    4
static struct vf_storage vf_store[MAXA];
static struct ifaddrs    vf_if[MAXA];
static struct addrinfo   vf_ai[MAXA];
static int vf_nif, vf_nai, vf_if_err, vf_ai_err, vf_sock_err, vf_lists, vf_socks, vf_ties;
static const char *vf_known[3] = { "eth0", "lo", "verylonginterf0" };   /* interfaces there are */

static int
vf_getifaddrs(struct ifaddrs **p)
{
    if (vf_if_err) { errno = vf_if_err; return -1; }
    vf_lists++;
    *p = vf_nif ? &vf_if[0] : 0;
    return 0;
}
static void vf_freeifaddrs(struct ifaddrs *p) { PROVE(p == (vf_nif ? &vf_if[0] : 0) && vf_lists > 0); vf_lists--; }
static int
vf_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **p)
{
    PROVE(s == 0 && h->ai_family == 0 && h->ai_flags == 0);
    if (vf_ai_err) { if (vf_ai_err == EAI_SYSTEM) errno = EIO; return vf_ai_err; }
    vf_lists++;
    *p = &vf_ai[0];
    return 0;
}
static void vf_freeaddrinfo(struct addrinfo *p) { PROVE(p == &vf_ai[0] && vf_lists > 0); vf_lists--; }
static int vf_socket(int d, int t, int p) { if (vf_sock_err) { errno = EMFILE; return -1; } vf_socks++; return 7; }
static int vf_close(int fd) { PROVE(fd == 7 && vf_socks > 0); vf_socks--; return 0; }
static int
vf_ioctl(int fd, unsigned long rq, struct ifreq *r)
{
    PROVE(fd == 7 && vf_socks > 0);
    for (int i = 0; i < 3; i++) if (strcmp(vf_known[i], r->ifr_ifrn.ifrn_name) == 0) return 0;
    errno = ENODEV;
    return -1;
}
static unsigned vf_if_index(const char *n) { for (int i = 0; i < 3; i++) if (strcmp(vf_known[i], n) == 0) return i + 1; errno = ENODEV; return 0; }
static int
vf_inet_aton(const char *s, struct in_addr *a)
{
    if (s[0] < '0' || s[0] > '9') return 0;
    a->s_addr = 0x01020304;
    return 1;
}
/* inet_ntop: an address of vf_ntop characters */
static int vf_ntop;
static const char *
vf_inet_ntop(int af, const void *a, char *b, socklen_t n)
{
    PROVE(af == AF_INET || af == AF_INET6);
    if (n < vf_ntop + 1) { errno = ENOSPC; return 0; }
    for (int i = 0; i < vf_ntop; i++) b[i] = ((const char *)a)[0];
    b[vf_ntop] = 0;
    return b;
}
/* any sort will do, and need not be stable */
static void
vf_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    char t[256], *p = b;
    PROVE(sz <= sizeof t);
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0; j--) {
            int c = cmp(p + (j - 1) * sz, p + j * sz);
            if (c < 0 || (c == 0 && !vf_ties)) break;
            memcpy(t, p + j * sz, sz);
            memcpy(p + j * sz, p + (j - 1) * sz, sz);
            memcpy(p + (j - 1) * sz, t, sz);
        }
}
#define getifaddrs      vf_getifaddrs
#define freeifaddrs     vf_freeifaddrs
#define getaddrinfo     vf_getaddrinfo
#define freeaddrinfo    vf_freeaddrinfo
#define gai_strerror(e) "gai"
#define socket          vf_socket
#define close           vf_close
#define ioctl           vf_ioctl
#define if_nametoindex  vf_if_index
#define inet_aton       vf_inet_aton
#define inet_ntop       vf_inet_ntop
#define qsort           vf_qsort
#include "strcopy.c"
#include "c_resolve.c"

static const int vf_fam[] = { AF_INET, AF_INET6, AF_PACKET };
static const int vf_bit[] = { F_INET, F_INET6, F_LINK };
static int
vf_len(int f) { return f == AF_INET ? sizeof (struct sockaddr_in) : f == AF_INET6 ? sizeof (struct sockaddr_in6) : sizeof (macaddr_type); }
static void
vf_addr(int i, int fam)
{
    char *p = (char *)&vf_store[i];
    memset(p, 0, sizeof vf_store[i]);
    vf_store[i].ss_family = fam;
    for (int j = 2; j < 16; j++) p[j] = i + 1;
    p[vf_len(fam) - 1] = 100 + i;
}
static int
vf_same(const void *a, int i)
{
    const char *x = a, *y = (const char *)&vf_store[i];
    int n = vf_len(vf_store[i].ss_family);
    for (int j = 0; j < n; j++) if (x[j] != y[j]) return 0;
    return 1;
}
static const char *vf_names[] = { "eth0", "lo", "verylonginterf0", "aa" };

static unsigned
vf_want(unsigned mask) { return mask ? mask : F_INET|F_INET6; }
static int
vf_in(int i, unsigned mask)
{
    if (!vf_if[i].ifa_addr) return 0;
    for (int k = 0; k < 3; k++) if (vf_fam[k] == vf_store[i].ss_family) return (vf_want(mask) & vf_bit[k]) != 0;
    return 0;
}
/* entries: base 12 digits name*3+family, base 13 digit 12: no address */
static void
vf_setup(int n, int c0, int c1, int c2)
{
    int c[] = { c0, c1, c2 };
    vf_nif = n;
    for (int i = 0; i < n; i++) {
        vf_if[i].ifa_next = i + 1 < n ? &vf_if[i + 1] : 0;
        vf_if[i].ifa_name = (char *)vf_names[c[i] == 12 ? 0 : c[i] / 3];
        vf_if[i].ifa_flags = 64 + i;
        vf_addr(i, vf_fam[c[i] % 3]);
        vf_if[i].ifa_addr = c[i] == 12 ? 0 : (struct sockaddr *)&vf_store[i];
    }
    vf_if_err = vf_ai_err = vf_sock_err = 0;
}

/* the addresses of one interface: exactly the wanted ones, each once */
static int
vf_check(if_addr_vect *v, const char *name, unsigned mask)
{
    int want = 0;
    for (int i = 0; i < vf_nif; i++) {
        if (!vf_in(i, mask) || strcmp(vf_if[i].ifa_name, name) != 0) continue;
        int hits = 0;
        for (size_t j = 0; j < VECT_LEN(v); j++)
            if (vf_same(&VECT_ELEM(v, j).sa, i)) {
                hits++;
                PROVE(VECT_ELEM(v, j).flags == 64 + i);
            }
        PROVE(hits == 1);
        want++;
    }
    PROVE(VECT_LEN(v) == want);
    return want;
}

static void
vf_all(unsigned mask, int err)
{
    if_address_vect v;
    VECT_INIT(&v, 2);
    vf_if_err = err;
    int r = get_all_if_address(&v, mask);
    PROVE(vf_lists == 0);
    if (err) PROVE(r == -err && VECT_LEN(&v) == 0);
    else {
        int want = 0, got = 0;
        PROVE(r == 0);
        for (int i = 0; i < vf_nif; i++) want += vf_in(i, mask);
        for (size_t j = 0; j < VECT_LEN(&v); j++) {
            if (j > 0) PROVE(strcmp(VECT_ELEM(&v, j - 1).if_name, VECT_ELEM(&v, j).if_name) < 0);
            int n = vf_check(&VECT_ELEM(&v, j).if_addr, VECT_ELEM(&v, j).if_name, mask);
            PROVE(n > 0);
            got += n;
        }
        PROVE(got == want);
    }
    free_all_if_address(&v);
    PROVE(vf_live == 0);
    VF_reach();
    VF_END;
}

/* reuse: the caller's vector has been used before */
static void
vf_one(const char *name, unsigned mask, int serr, int err, int reuse)
{
    if_addr_vect v;
    VECT_INIT(&v, 2);
    if (reuse) { if_addr x; memset(&x, 0, sizeof x); VECT_PUSH_BACK(&v, x); }
    vf_sock_err = serr;
    vf_if_err = err;
    int r = get_interface_address(name, &v, mask);
    PROVE(vf_lists == 0 && vf_socks == 0);
    int known = 0;
    for (int i = 0; i < 3; i++) if (strcmp(vf_known[i], name) == 0) known = 1;
    if (!known) PROVE(r == -ENOENT);
    else if (serr) PROVE(r < 0);
    else if (err) PROVE(r == -err);
    else {
        PROVE(r == 0);
        vf_check(&v, name, mask);
    }
    VECT_FINI(&v);
    PROVE(vf_live == 0);
    VF_reach();
    VF_END;
}

static void
vf_name(const char *name, unsigned mask, int aierr, int nai, int f0, int f1, int reuse)
{
    int f[] = { f0, f1 };
    if_addr_vect v;
    VECT_INIT(&v, 2);
    if (reuse) { if_addr x; memset(&x, 0, sizeof x); VECT_PUSH_BACK(&v, x); }
    vf_nif = 0;
    vf_ai_err = aierr;
    vf_if_err = vf_sock_err = 0;
    vf_nai = nai;
    for (int i = 0; i < nai; i++) {
        vf_addr(i, vf_fam[f[i]]);
        vf_ai[i].ai_addr = (struct sockaddr *)&vf_store[i];
        vf_ai[i].ai_family = vf_fam[f[i]];
        vf_ai[i].ai_addrlen = vf_len(vf_fam[f[i]]);
        vf_ai[i].ai_next = i + 1 < nai ? &vf_ai[i + 1] : 0;
    }
    errno = 0;
    int r = resolve_host_or_ifname(name, &v, mask);
    PROVE(vf_lists == 0 && vf_socks == 0);
    if (!name[0] || name[0] == '*' || name[0] == '9') {
        PROVE(r == 0 && VECT_LEN(&v) == 1);
        struct sockaddr_in *a = (struct sockaddr_in *)&VECT_ELEM(&v, 0).sa;
        PROVE(a->sin_family == AF_INET && a->sin_addr.s_addr == (name[0] == '9' ? 0x01020304 : 0));
    } else if (aierr) PROVE(r < 0);
    else {
        int j = 0;
        PROVE(r == 0);
        for (int i = 0; i < nai; i++) {
            if (!(vf_want(mask) & vf_bit[f[i]])) continue;
            PROVE(j < VECT_LEN(&v) && vf_same(&VECT_ELEM(&v, j).sa, i));
            j++;
        }
        PROVE(j == VECT_LEN(&v));
    }
    VECT_FINI(&v);
    PROVE(vf_live == 0);
    VF_reach();
    VF_END;
}

static char vf_b[48];
static void
vf_text(int fam, size_t n, int len)
{
    vf_addr(0, fam);
    char *dst = vf_b + sizeof vf_b - n;
    vf_ntop = len;
    if (fam == AF_PACKET) {
        macaddr_type *m = (macaddr_type *)&vf_store[0];
        for (int i = 0; i < 6; i++) LLADDR(m)[i] = 0x10 * i + 15 - i;
    }
    const char *r = sockaddr_to_string(dst, n, (struct sockaddr *)&vf_store[0]);
    if (fam == AF_PACKET) {
        if (n < 18) PROVE(r == 0);
        else PROVE(r == dst && strcmp(dst, "0f:1e:2d:3c:4b:5a") == 0);
    } else if (fam == AF_INET || fam == AF_INET6) {
        if (n < len + 1) PROVE(r == 0);
        else {
            PROVE(r == dst && dst[len] == 0);
            for (int i = 0; i < len; i++) PROVE(dst[i] == ((char *)&vf_store[0])[fam == AF_INET ? 4 : 8]);
        }
    } else PROVE(r == dst);
    VF_reach();
    VF_END;
}

static void
vf_group(int n, int a, int b, int c)
{
    vf_ties = (a ^ b ^ c) & 1;
    for (unsigned mask = 0; mask < 8; mask++) {
        if (n == 3 && mask != 7 && mask != (a + b + c) % 7) continue;
        vf_setup(n, a, b, c);
        vf_all(mask, 0);
        if (a == 1) { vf_setup(n, a, b, c); vf_all(mask, mask & 1 ? EMFILE : ENOMEM); }
        if (n == 3 && a > 2) continue;
        vf_setup(n, a, b, c);
        vf_one(vf_names[(a + b + mask) % 3], mask, 0, 0, a & 1);
    }
    vf_setup(n, a, b, c);
    vf_one("verylonginterf0x", 7, 0, 0, 1);
    vf_one("aa", 7, 0, 0, 0);
    vf_one("lo", 7, 1, 0, 0);
    vf_one("lo", 7, 0, EMFILE, 1);
}

static void
vf_names_group(void)
{
    static const int errs[] = { EAI_NONAME, EAI_AGAIN, EAI_MEMORY, EAI_SYSTEM, EAI_FAIL };
    for (unsigned mask = 0; mask < 8; mask++) {
        vf_name("", mask, 0, 0, 0, 0, mask & 1);
        vf_name("*", mask, 0, 0, 0, 0, mask & 1);
        vf_name("9.9", mask, 0, 0, 0, 0, mask & 1);
        for (int e = 0; e < NELEM(errs); e++) vf_name("host", mask, errs[e], 0, 0, 0, 0);
        for (int i = 0; i < 3; i++) {
            vf_name("host", mask, 0, 1, i, 0, 0);
            vf_name("verylonginterf0x", mask, 0, 1, i, 0, 1);
            for (int j = 0; j < 3; j++) vf_name("host", mask, 0, 2, i, j, j & 1);
        }
    }
}
static void
vf_texts(void)
{
    for (int n = 1; n <= 48; n++) {
        vf_text(AF_PACKET, n, 0);
        vf_text(AF_INET, n, 7);
        vf_text(AF_INET6, n, 39);
        vf_text(AF_UNIX, n, 0);
    }
}

int main(void)
{
    int k = 0;
    if (k++ % VF_NSHARD == VF_SHARD) vf_group(0, 0, 0, 0);
    if (k++ % VF_NSHARD == VF_SHARD) vf_names_group();
    if (k++ % VF_NSHARD == VF_SHARD) vf_texts();
    for (int a = 0; a < 13; a++) {
        if (k++ % VF_NSHARD == VF_SHARD) vf_group(1, a, 0, 0);
        for (int b = 0; b < 13; b++) {
            if ((a + 2 * b) % PSTEP == 0 && k++ % VF_NSHARD == VF_SHARD) vf_group(2, a, b, 0);
            if (a < N3 && k++ % VF_NSHARD == VF_SHARD) for (int c = 0; c < 13; c++) if ((a + b + c) % STEP == 0) vf_group(3, a, b, c);
        }
    }
    return 0;
}
