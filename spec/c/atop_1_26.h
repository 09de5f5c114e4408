/* On-disk structures of Atop 1.26 logs, x86-64 Linux. */
/* root Header = struct Header */
/* root Record = struct Record */
/* root SStat = struct SStat */
/* root TStat = struct PStat */

struct UTSName {
    char sysname[65];
    char nodename[65];
    char release[65];
    char version[65];
    char machine[65];
    char domain[65];
};

struct Header {
    unsigned int magic;
    unsigned short aversion;
    unsigned short future1;
    unsigned short future2;
    unsigned short rawheadlen;
    unsigned short rawreclen;
    unsigned short hertz;
    unsigned short sfuture[6];
    unsigned int sstatlen;
    unsigned int pstatlen;
    struct UTSName utsname;
    char cfuture[8];
    unsigned int pagesize;
    int supportflags;
    int osrel;
    int osvers;
    int ossub;
    int ifuture[6];
};

struct Record {
    long long curtime;
    unsigned short flags;
    unsigned short sfuture[3];
    unsigned int scomplen;
    unsigned int pcomplen;
    unsigned int interval;
    unsigned int nlist;
    unsigned int npresent;
    unsigned int nexit;
    unsigned int ntrun;
    unsigned int ntslpi;
    unsigned int ntslpu;
    unsigned int nzombie;
    unsigned int ifuture[6];
};

struct FreqCnt {
    long long maxfreq;
    long long cnt;
    long long ticks;
};

struct PerCPU {
    int cpunr;
    long long stime;
    long long utime;
    long long ntime;
    long long itime;
    long long wtime;
    long long Itime;
    long long Stime;
    long long steal;
    long long guest;
    struct FreqCnt freqcnt;
    long long cfuture[1];
};

struct CPUStat {
    long long nrcpu;
    long long devint;
    long long csw;
    long long nprocs;
    float lavg1;
    float lavg5;
    float lavg15;
    long long cfuture[4];
    struct PerCPU all;
    struct PerCPU cpu[64];
};

struct MemStat {
    long long physmem;
    long long freemem;
    long long buffermem;
    long long slabmem;
    long long cachemem;
    long long cachedrt;
    long long totswap;
    long long freeswap;
    long long pgscans;
    long long allocstall;
    long long swouts;
    long long swins;
    long long commitlim;
    long long committed;
    long long cfuture[4];
};

struct IPv4Stats {
    long long Forwarding;
    long long DefaultTTL;
    long long InReceives;
    long long InHdrErrors;
    long long InAddrErrors;
    long long ForwDatagrams;
    long long InUnknownProtos;
    long long InDiscards;
    long long InDelivers;
    long long OutRequests;
    long long OutDiscards;
    long long OutNoRoutes;
    long long ReasmTimeout;
    long long ReasmReqds;
    long long ReasmOKs;
    long long ReasmFails;
    long long FragOKs;
    long long FragFails;
    long long FragCreates;
};

struct ICMPv4Stats {
    long long InMsgs;
    long long InErrors;
    long long InDestUnreachs;
    long long InTimeExcds;
    long long InParmProbs;
    long long InSrcQuenchs;
    long long InRedirects;
    long long InEchos;
    long long InEchoReps;
    long long InTimestamps;
    long long InTimestampReps;
    long long InAddrMasks;
    long long InAddrMaskReps;
    long long OutMsgs;
    long long OutErrors;
    long long OutDestUnreachs;
    long long OutTimeExcds;
    long long OutParmProbs;
    long long OutSrcQuenchs;
    long long OutRedirects;
    long long OutEchos;
    long long OutEchoReps;
    long long OutTimestamps;
    long long OutTimestampReps;
    long long OutAddrMasks;
    long long OutAddrMaskReps;
};

struct UDPv4Stats {
    long long InDatagrams;
    long long NoPorts;
    long long InErrors;
    long long OutDatagrams;
};

struct IPv6Stats {
    long long Ip6InReceives;
    long long Ip6InHdrErrors;
    long long Ip6InTooBigErrors;
    long long Ip6InNoRoutes;
    long long Ip6InAddrErrors;
    long long Ip6InUnknownProtos;
    long long Ip6InTruncatedPkts;
    long long Ip6InDiscards;
    long long Ip6InDelivers;
    long long Ip6OutForwDatagrams;
    long long Ip6OutRequests;
    long long Ip6OutDiscards;
    long long Ip6OutNoRoutes;
    long long Ip6ReasmTimeout;
    long long Ip6ReasmReqds;
    long long Ip6ReasmOKs;
    long long Ip6ReasmFails;
    long long Ip6FragOKs;
    long long Ip6FragFails;
    long long Ip6FragCreates;
    long long Ip6InMcastPkts;
    long long Ip6OutMcastPkts;
};

struct ICMPv6Stats {
    long long Icmp6InMsgs;
    long long Icmp6InErrors;
    long long Icmp6InDestUnreachs;
    long long Icmp6InPktTooBigs;
    long long Icmp6InTimeExcds;
    long long Icmp6InParmProblems;
    long long Icmp6InEchos;
    long long Icmp6InEchoReplies;
    long long Icmp6InGroupMembQueries;
    long long Icmp6InGroupMembResponses;
    long long Icmp6InGroupMembReductions;
    long long Icmp6InRouterSolicits;
    long long Icmp6InRouterAdvertisements;
    long long Icmp6InNeighborSolicits;
    long long Icmp6InNeighborAdvertisements;
    long long Icmp6InRedirects;
    long long Icmp6OutMsgs;
    long long Icmp6OutDestUnreachs;
    long long Icmp6OutPktTooBigs;
    long long Icmp6OutTimeExcds;
    long long Icmp6OutParmProblems;
    long long Icmp6OutEchoReplies;
    long long Icmp6OutRouterSolicits;
    long long Icmp6OutNeighborSolicits;
    long long Icmp6OutNeighborAdvertisements;
    long long Icmp6OutRedirects;
    long long Icmp6OutGroupMembResponses;
    long long Icmp6OutGroupMembReductions;
};

struct UDPv6Stats {
    long long Udp6InDatagrams;
    long long Udp6NoPorts;
    long long Udp6InErrors;
    long long Udp6OutDatagrams;
};

struct TCPStats {
    long long RtoAlgorithm;
    long long RtoMin;
    long long RtoMax;
    long long MaxConn;
    long long ActiveOpens;
    long long PassiveOpens;
    long long AttemptFails;
    long long EstabResets;
    long long CurrEstab;
    long long InSegs;
    long long OutSegs;
    long long RetransSegs;
    long long InErrs;
    long long OutRsts;
};

struct NETStat {
    struct IPv4Stats ipv4;
    struct ICMPv4Stats icmpv4;
    struct UDPv4Stats udpv4;
    struct IPv6Stats ipv6;
    struct ICMPv6Stats icmpv6;
    struct UDPv6Stats udpv6;
    struct TCPStats tcp;
};

struct PerIntf {
    char name[16];
    long long rbyte;
    long long rpack;
    long long rerrs;
    long long rdrop;
    long long rfifo;
    long long rframe;
    long long rcompr;
    long long rmultic;
    long long rfuture[4];
    long long sbyte;
    long long spack;
    long long serrs;
    long long sdrop;
    long long sfifo;
    long long scollis;
    long long scarrier;
    long long scompr;
    long long sfuture[4];
    long long speed;
    char duplex;
    long long cfuture[4];
};

struct IntfStat {
    int nrintf;
    struct PerIntf intf[32];
};

struct PerDSK {
    char name[32];
    long long nread;
    long long nrsect;
    long long nwrite;
    long long nwsect;
    long long io_ms;
    long long avque;
    long long cfuture[4];
};

struct DSKStat {
    int ndsk;
    int nmdd;
    int nlvm;
    struct PerDSK dsk[256];
    struct PerDSK mdd[128];
    struct PerDSK lvm[256];
};

struct WWWStat {
    long long accesses;
    long long totkbytes;
    long long uptime;
    int bworkers;
    int iworkers;
};

struct SStat {
    struct CPUStat cpu;
    struct MemStat mem;
    struct NETStat net;
    struct IntfStat intf;
    struct DSKStat dsk;
    struct WWWStat www;
};

struct GEN {
    int pid;
    int ppid;
    int ruid;
    int euid;
    int suid;
    int fsuid;
    int rgid;
    int egid;
    int sgid;
    int fsgid;
    int nthr;
    char name[16];
    char state;
    int excode;
    long long btime;
    long long elaps;
    char cmdline[151];
    int nthrslpi;
    int nthrslpu;
    int nthrrun;
    int ifuture[1];
};

struct CPU {
    long long utime;
    long long stime;
    int nice;
    int prio;
    int rtprio;
    int policy;
    int curcpu;
    int sleepavg;
    int ifuture[4];
    long long cfuture[4];
};

struct DSK {
    long long rio;
    long long rsz;
    long long wio;
    long long wsz;
    long long cwsz;
    long long cfuture[4];
};

struct MEM {
    long long minflt;
    long long majflt;
    long long shtext;
    long long vmem;
    long long rmem;
    long long vgrow;
    long long rgrow;
    long long cfuture[4];
};

struct NET {
    long long tcpsnd;
    long long tcpssz;
    long long tcprcv;
    long long tcprsz;
    long long udpsnd;
    long long udpssz;
    long long udprcv;
    long long udprsz;
    long long rawsnd;
    long long rawrcv;
    long long cfuture[4];
};

struct PStat {
    struct GEN gen;
    struct CPU cpu;
    struct DSK dsk;
    struct MEM mem;
    struct NET net;
};
