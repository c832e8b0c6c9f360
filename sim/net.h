#ifndef DST_NET_H
#define DST_NET_H 1
#include <sys/socket.h>
#include <ifaddrs.h>
#include <netdb.h>
typedef struct { char name[16]; int family; unsigned flags; struct sockaddr_storage addr; } net_if;     /* family 0: an entry without address */
typedef struct { char name[80]; unsigned n; struct sockaddr_storage addr[16]; } net_host;
extern net_if net_ifs[64]; extern unsigned net_nifs; extern net_host net_hosts[16]; extern unsigned net_nhosts;
extern unsigned net_open_lists, net_lookups; extern int net_stale_errno;      /* lists not released yet; what errno holds at lookups */
extern int (*os_ioctl_hook)(int fd, unsigned long req, void *arg);
void net_reset(void);
#endif
