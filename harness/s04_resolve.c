/* S04: interface and host name resolution */
#include "os.h"
#include "net.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <linux/if_packet.h>
#include "utils/resolve.h"
static unsigned slen(int f) { return f == AF_INET6 ? sizeof(struct sockaddr_in6) : f == AF_PACKET ? sizeof(struct sockaddr_ll) : sizeof(struct sockaddr_in); }
static void addr(struct sockaddr_storage *s, int f, unsigned uniq)
{
    memset(s, 0, sizeof *s); prng g = { ch_seed() };
    if (f == AF_INET) { struct sockaddr_in *a = (void*)s; a->sin_family = AF_INET; a->sin_addr.s_addr = (uint32_t)prng_next(&g) ^ uniq; a->sin_port = 0; }
    else if (f == AF_INET6) { struct sockaddr_in6 *a = (void*)s; a->sin6_family = AF_INET6; for (int i = 0; i < 16; i++) a->sin6_addr.s6_addr[i] = (uint8_t)prng_next(&g); a->sin6_addr.s6_addr[15] = (uint8_t)uniq; a->sin6_scope_id = ch(3); }
    else { struct sockaddr_ll *a = (void*)s; a->sll_family = AF_PACKET; a->sll_ifindex = (int)uniq; a->sll_halen = 6; for (int i = 0; i < 6; i++) a->sll_addr[i] = (uint8_t)prng_next(&g); a->sll_hatype = 1; }
}
static unsigned fbit(int f) { return f == AF_INET6 ? F_INET6 : f == AF_PACKET ? F_LINK : F_INET; }
#define NIF 19
typedef struct { const struct sockaddr_storage *a; unsigned flags; int used; } want; static want W[1100]; static unsigned nw;
static void want_if(const char *nm, unsigned mask) { nw = 0; for (unsigned i = 0; i < net_nifs; i++) if (!strcmp(net_ifs[i].name, nm) && net_ifs[i].family && (mask & fbit(net_ifs[i].family))) W[nw++] = (want){ &net_ifs[i].addr, net_ifs[i].flags, 0 }; }
static void want_host(const char *nm, unsigned mask) { nw = 0; for (unsigned i = 0; i < net_nhosts; i++) if (!strcmp(net_hosts[i].name, nm)) for (unsigned k = 0; k < net_hosts[i].n; k++) if (mask & fbit(((struct sockaddr*)&net_hosts[i].addr[k])->sa_family)) W[nw++] = (want){ &net_hosts[i].addr[k], 0, 0 }; }
static int match(const if_addr *e, unsigned n)          /* are these exactly the wanted addresses? 0 yes */
{
    for (unsigned k = 0; k < nw; k++) W[k].used = 0;
    for (unsigned i = 0; i < n; i++) { unsigned k = 0; for (; k < nw; k++) if (!W[k].used && e[i].sa.ss_family == W[k].a->ss_family && !memcmp(&e[i].sa, W[k].a, slen(W[k].a->ss_family)) && e[i].flags == W[k].flags) break; if (k == nw) return 1; W[k].used = 1; }
    return n == nw ? 0 : 2;
}
static void textual(const struct sockaddr_storage *s)
{
    char full[64], want_[64]; int f = s->ss_family;
    if (f == AF_PACKET) { const uint8_t *m = ((const struct sockaddr_ll*)s)->sll_addr; snprintf(want_, sizeof want_, "%02x:%02x:%02x:%02x:%02x:%02x", m[0], m[1], m[2], m[3], m[4], m[5]); }
    else inet_ntop(f, f == AF_INET ? (void*)&((struct sockaddr_in*)s)->sin_addr : (void*)&((struct sockaddr_in6*)s)->sin6_addr, want_, sizeof want_);
    const char *r = sockaddr_to_string(full, sizeof full, (const struct sockaddr*)s); CHECK(r && !strcmp(r, want_), "text", "an address is shown as '%s', not '%s'", r ? r : "(null)", want_);
    unsigned n = 1 + ch(48); char *b = os_malloc(n); memset(b, 'q', n); struct sockaddr *x = os_malloc(slen(f)); memcpy(x, s, slen(f)); r = sockaddr_to_string(b, n, x);
    if (n > strlen(want_)) CHECK(r && !strcmp(r, want_), "text", "an address is shown as '%s', not '%s', with %u bytes of room", r ? r : "(null)", want_, n);
    os_free(b); os_free(x);
}
static void run(void)
{
    os_reset(); os_low_fds(); net_reset(); static const char *ifn[] = { "lo", "eth0", "eth01", "eth0:1", "wlp0s20f3abcdef", "a", "br-1", "vlan7", "tun0", "docker0", "wwan0", "ib0", "sit0", "e", "eth1", "eth2", "eth02", "vethab12cd3", "lo0" };
    unsigned n = ch(4) == 3 ? ch(60) : ch(12); int layout = (int)ch(2);
    for (unsigned i = 0; i < n; i++) { net_if *x = &net_ifs[net_nifs++]; strcpy(x->name, ifn[layout ? ch(NIF) : i * NIF / n]); x->family = ch(12) == 11 ? 0 : (int[]){ AF_INET, AF_INET6, AF_PACKET }[ch(3)]; x->flags = ch(0x20000); addr(&x->addr, x->family ? x->family : AF_INET, i); }
    unsigned nh = ch(4); static const char *hn[] = { "host.example", "eth0", "10.1.2.3", "2001:db8::1", "h" , "wlp0s20f3abcdefgh" };
    for (unsigned i = 0; i < nh; i++) { net_host *h = &net_hosts[net_nhosts]; const char *nm = hn[ch(6)]; int dupn = 0; for (unsigned k = 0; k < net_nhosts; k++) dupn |= !strcmp(net_hosts[k].name, nm); if (dupn) continue; strcpy(h->name, nm); h->n = 1 + ch(12); for (unsigned k = 0; k < h->n; k++) addr(&h->addr[k], ch(2) ? AF_INET : AF_INET6, k); net_nhosts++; }
    net_stale_errno = (int[]){ 0, 0, ENOENT, EINTR }[ch(4)]; if_addr_vect v; memset(&v, 0, sizeof v); VECT_INIT(&v, 1 + ch(4)); size_t held = os_heap_live() - 1; unsigned calls = 1 + ch(4), okc = 0; (void)held;
    for (unsigned c = 0; c < calls; c++) {
        unsigned mask = ch(8), eff = mask ? mask : F_INET | F_INET6, op = ch(3); size_t base = os_heap_live(); unsigned fds = os_open_fds(), f0 = os_fired(""), fs = os_fired("socket") + os_fired("ioctl"), fg = os_fired("getifaddrs"), fa = os_fired("getaddrinfo"), fc = os_fired("close");
        os_cfg.io = ch(3) == 2; errno = net_stale_errno; int r;
        if (op == 0) {
            if_address_vect av; int io = os_cfg.io; os_cfg.io = 0; VECT_INIT(&av, 1 + ch(3)); os_cfg.io = io; r = get_all_if_address(&av, mask); os_cfg.io = 0; ev("all %u -> %d", mask, r); evq(1, (uint64_t)r, VECT_LEN(&av));
            if (os_fired("getifaddrs") > fg) { CHECK(r < 0, "unreported", "listing fails and %d is returned", r); CHECK(r >= -ENOBUFS && r != -1, "code", "result %d is not the reason", r); tally("list_failures", 1); }
            else {
                CHECK(r == 0, "spurious-failure", "listing returned %d", r); char seen[64][16]; unsigned ns = 0, tot = 0;
                for (size_t i = 0; i < VECT_LEN(&av); i++) {
                    if_address *a = &VECT_ELEM(&av, i); for (unsigned k = 0; k < ns; k++) CHECK(strcmp(seen[k], a->if_name), "twice", "interface %s is listed twice", a->if_name); CHECK(strlen(a->if_name) < 16 && ns < 64, "name", "interface name %.20s", a->if_name); strcpy(seen[ns++], a->if_name);
                    want_if(a->if_name, eff); CHECK(nw, "invented", "interface %s is listed without having an address asked for", a->if_name); int m = match(&VECT_ELEM(&a->if_addr, 0), (unsigned)VECT_LEN(&a->if_addr)); CHECK(!m, m == 1 ? "altered" : "incomplete", "interface %s: %u addresses listed, %u expected%s", a->if_name, (unsigned)VECT_LEN(&a->if_addr), nw, m == 1 ? ", one is not from the system" : ""); tot += nw;
                }
                unsigned all = 0; for (unsigned i = 0; i < net_nifs; i++) all += net_ifs[i].family && (eff & fbit(net_ifs[i].family)); CHECK(tot == all, "incomplete", "%u of %u addresses are listed", tot, all); okc++; tally("addresses", tot);
            }
            free_all_if_address(&av);
        } else {
            static const char *odd[] = { "", "*", "*x", "10.1.2.3", "127.1", "255.255.255.255", "0x7f.0.0.1", "1.2.3.4.5", "nohost" }; const char *nm = ch(3) == 0 ? odd[ch(9)] : ch(2) ? ifn[ch(3) ? ch(7) : ch(NIF)] : hn[ch(6)]; int isif = 0; for (unsigned i = 0; i < net_nifs; i++) isif |= !strcmp(net_ifs[i].name, nm);
            r = op == 1 ? get_interface_address(nm, &v, mask) : resolve_host_or_ifname(nm, &v, mask); os_cfg.io = 0; ev("%s %s %u -> %d", op == 1 ? "interface" : "resolve", nm, mask, r); evq(2, (uint64_t)r, VECT_LEN(&v));
            CHECK(r <= 0, "code", "result %d", r); int fsock = os_fired("socket") + os_fired("ioctl") > fs, fif = os_fired("getifaddrs") > fg, fai = os_fired("getaddrinfo") > fa; const if_addr *e = &VECT_ELEM(&v, 0); unsigned ne = (unsigned)VECT_LEN(&v); struct in_addr in; struct sockaddr_storage lit; memset(&lit, 0, sizeof lit); lit.ss_family = AF_INET;
            int literal = op == 2 && (!*nm || *nm == '*' || inet_aton(nm, &in)); if (literal && *nm && *nm != '*') ((struct sockaddr_in*)&lit)->sin_addr = in;
            if (literal) { CHECK(r == 0, "spurious-failure", "'%s' is not resolved: %d", nm, r); nw = 1; W[0] = (want){ &lit, 0, 0 }; }
            else if (isif && !fsock && !fif) { CHECK(r == 0, "spurious-failure", "interface '%s' is not resolved: %d", nm, r); want_if(nm, eff); }
            else if (op == 1) { CHECK(r < 0, "unreported", "'%s' is %s and 0 is returned", nm, isif ? "not accessible" : "no interface"); }
            else { want_host(nm, ~0u); int known = nw > 0; want_host(nm, eff); if (!known || fai) CHECK(r < 0, "unreported", "the lookup of '%s' fails and 0 is returned", nm); else CHECK(r == 0, "spurious-failure", "'%s' is not resolved: %d", nm, r); }
            if (r == 0) { int m = match(e, ne); CHECK(!m, m == 1 ? "altered" : "incomplete", "'%s': %u addresses, %u expected%s", nm, ne, nw, m == 1 ? ", one is not from the system" : ""); okc++; tally("addresses", ne); if (ne) textual(&e[ch(ne)].sa); }
        }
        long d = (long)os_heap_live() - (long)base; CHECK(d == 0, "leak", "%ld blocks left", d); CHECK(net_open_lists == 0, "leak", "%u lists of the system are not released", net_open_lists); if (os_fired("close") == fc) CHECK(os_open_fds() == fds, "leak", "%d descriptors left", (int)os_open_fds() - (int)fds); (void)f0;
    }
    if (net_nifs) { net_if *x = &net_ifs[ch(net_nifs)]; if (x->family) textual(&x->addr); }
    VECT_FINI(&v); CHECK(os_heap_live() == 0, "leak", "%u blocks left", (unsigned)os_heap_live());
    tally("calls", calls); tally("resolved", okc); run_nontrivial(); cover(mix64(mix64(net_nifs, net_nhosts), mix64(net_lookups, okc * 8 + calls))); sample("%u interface addresses, %u hosts, %u calls, %u successful", net_nifs, net_nhosts, calls, okc);
}
const dst_harness harness = { .property = "S04", .name = "resolve", .run = run,
  .rule = "one run = one to four calls that list interfaces, take one interface's addresses or resolve a name (interface, host, literal, both, unknown) under any mask, with a simulated system of up to 60 interface addresses (mixed families, missing addresses, names in any order) and up to 3 hosts, with failing sockets, ioctls, listings and lookups of every error code; every run is non-trivial; distinct by the hash of the whole event log" };
