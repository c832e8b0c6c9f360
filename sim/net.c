/* A simulated network configuration: interfaces and a name service. */
#include "os.h"
#include "net.h"
#include <errno.h>
#include <string.h>
#include <sys/ioctl.h>
#include <net/if.h>
#include <netinet/in.h>
#include <linux/if_packet.h>
#include <fcntl.h>
net_if net_ifs[64]; unsigned net_nifs; net_host net_hosts[16]; unsigned net_nhosts; unsigned net_open_lists; int net_stale_errno; unsigned net_lookups;
static unsigned slen(int f) { return f == AF_INET6 ? sizeof(struct sockaddr_in6) : f == AF_PACKET ? sizeof(struct sockaddr_ll) : sizeof(struct sockaddr_in); }
static int ioh(int fd, unsigned long req, void *arg)
{
    (void)fd; struct ifreq *r = arg;
    if (req == SIOCGIFMTU || req == SIOCGIFFLAGS || req == SIOCGIFINDEX) {
        if (os_cfg.io && os_fault("ioctl")) { errno = EIO; return -1; }
        if (!memchr(r->ifr_name, 0, IFNAMSIZ)) { errno = ENODEV; return -1; }
        for (unsigned i = 0; i < net_nifs; i++) if (!strcmp(net_ifs[i].name, r->ifr_name)) { r->ifr_mtu = 1500; return 0; }
        errno = ENODEV; return -1;
    }
    errno = ENOTTY; return -1;
}
void net_reset(void) { net_nifs = net_nhosts = net_open_lists = net_lookups = 0; net_stale_errno = 0; os_ioctl_hook = ioh; os_mknod("/.socket", OS_CHR, 0x103); }
int sim_socket(int d, int t, int p) { (void)d; (void)t; (void)p; if (os_cfg.io && os_fault("socket")) { errno = ch(2) ? EMFILE : EAFNOSUPPORT; return -1; } int f = os_fd_open("/.socket", O_RDWR); ev("socket %d", f); return f; }
static struct sockaddr *sa(const void *a, int f, size_t n) { if (!f) return 0; void *p = os_malloc(n); memcpy(p, a, n); return p; }
static void *L[64];
static int have(void *p) { for (int k = 0; k < 64; k++) if (L[k] == p) { L[k] = 0; return 1; } return 0; }
static void keep(void *p) { for (int k = 0; k < 64; k++) if (!L[k]) { L[k] = p; net_open_lists++; return; } violation("leak", "more than 64 address lists are open"); }
int sim_getifaddrs(struct ifaddrs **o)
{
    ev("getifaddrs"); if (os_cfg.io && os_fault("getifaddrs")) { errno = (int[]){ ENOMEM, EMFILE, EACCES, ENOBUFS }[ch(4)]; return -1; }
    int a = os_cfg.alloc; os_cfg.alloc = 0; struct ifaddrs *h = 0, **t = &h;
    for (unsigned i = 0; i < net_nifs; i++) { net_if *n = &net_ifs[i]; struct ifaddrs *x = os_malloc(sizeof *x); memset(x, 0, sizeof *x); x->ifa_name = os_malloc(strlen(n->name) + 1); strcpy(x->ifa_name, n->name); x->ifa_flags = n->flags; x->ifa_addr = sa(&n->addr, n->family, slen(n->family)); *t = x; t = &x->ifa_next; }
    os_cfg.alloc = a; if (h) keep(h); *o = h; return 0;
}
void sim_freeifaddrs(struct ifaddrs *p)
{
    ev("freeifaddrs"); if (!p) return; if (!have(p)) violation("bad-free", "a list of interfaces is released that is not one (or was released before)"); net_open_lists--;
    while (p) { struct ifaddrs *n = p->ifa_next; os_free(p->ifa_name); if (p->ifa_addr) os_free(p->ifa_addr); os_free(p); p = n; }
}
int sim_getaddrinfo(const char *name, const char *svc, const struct addrinfo *hi, struct addrinfo **o)
{
    (void)svc; net_lookups++; ev("getaddrinfo %s", name); errno = net_stale_errno;
    if (os_cfg.io && os_fault("getaddrinfo")) { int e = (int[]){ EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM, EAI_NONAME }[ch(5)]; if (e == EAI_SYSTEM) errno = ch(2) ? EMFILE : EIO; return e; }
    net_host *h = 0; for (unsigned i = 0; i < net_nhosts; i++) if (!strcmp(net_hosts[i].name, name)) h = &net_hosts[i];
    if (!h) return EAI_NONAME;
    int a = os_cfg.alloc; os_cfg.alloc = 0; struct addrinfo *z = 0, **t = &z; unsigned rep = hi && hi->ai_socktype ? 1 : 3;
    for (unsigned i = 0; i < h->n; i++) for (unsigned k = 0; k < rep; k++) {
        int f = ((struct sockaddr*)&h->addr[i])->sa_family; if (hi && hi->ai_family && hi->ai_family != f) continue;
        struct addrinfo *x = os_malloc(sizeof *x); memset(x, 0, sizeof *x); x->ai_family = f; x->ai_socktype = rep == 1 ? hi->ai_socktype : (int)k + 1; x->ai_addrlen = slen(f); x->ai_addr = sa(&h->addr[i], f, slen(f)); *t = x; t = &x->ai_next;
    }
    os_cfg.alloc = a; if (!z) return EAI_NONAME; keep(z); *o = z; return 0;
}
void sim_freeaddrinfo(struct addrinfo *p)
{
    ev("freeaddrinfo"); if (!p || !have(p)) violation("bad-free", "a list of addresses is released that is not one (or was released before)"); net_open_lists--;
    while (p) { struct addrinfo *n = p->ai_next; os_free(p->ai_addr); os_free(p); p = n; }
}
