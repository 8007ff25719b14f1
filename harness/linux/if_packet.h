/* struct sockaddr_ll, as on Linux, for analysers without system headers */
#ifndef VF_IF_PACKET_H
#define VF_IF_PACKET_H 1
struct sockaddr_ll {
    unsigned short sll_family, sll_protocol;
    int            sll_ifindex;
    unsigned short sll_hatype;
    unsigned char  sll_pkttype, sll_halen, sll_addr[8];
};
#endif
