/* On-disk structures of Atop 2.10 logs, x86-64 Linux. */
/* root Header = struct Header */
/* root Record = struct Record */
/* root SStat = struct SStat */
/* root TStat = struct TStat */

struct UTSName {
    char sysname[65];
    char nodename[65];
    char release[65];
    char version[65];
    char machine[65];
    char domain[65];
};

struct Header {
    unsigned int magic;
    unsigned short aversion;
    unsigned short future1;
    unsigned short future2;
    unsigned short rawheadlen;
    unsigned short rawreclen;
    unsigned short hertz;
    unsigned short pidwidth;
    unsigned short sfuture[5];
    unsigned int sstatlen;
    unsigned int tstatlen;
    struct UTSName utsname;
    char cfuture[8];
    unsigned int pagesize;
    int supportflags;
    int osrel;
    int osvers;
    int ossub;
    int ifuture[6];
};

struct Record {
    long long curtime;
    unsigned short flags;
    unsigned short sfuture[3];
    unsigned int scomplen;
    unsigned int pcomplen;
    unsigned int interval;
    unsigned int ndeviat;
    unsigned int nactproc;
    unsigned int ntask;
    unsigned int totproc;
    unsigned int totrun;
    unsigned int totslpi;
    unsigned int totslpu;
    unsigned int totzomb;
    unsigned int nexit;
    unsigned int noverflow;
    unsigned int totidle;
    unsigned int ifuture[5];
};

struct FreqCnt {
    long long maxfreq;
    long long cnt;
    long long ticks;
};

struct PerCPU {
    int cpunr;
    long long stime;
    long long utime;
    long long ntime;
    long long itime;
    long long wtime;
    long long Itime;
    long long Stime;
    long long steal;
    long long guest;
    struct FreqCnt freqcnt;
    long long instr;
    long long cycle;
    long long cfuture[6];
};

struct CPUStat {
    long long nrcpu;
    long long devint;
    long long csw;
    long long nprocs;
    float lavg1;
    float lavg5;
    float lavg15;
    long long cfuture[4];
    struct PerCPU all;
    struct PerCPU cpu[2048];
};

struct MemStat {
    long long physmem;
    long long freemem;
    long long buffermem;
    long long slabmem;
    long long cachemem;
    long long cachedrt;
    long long totswap;
    long long freeswap;
    long long pgscans;
    long long pgsteal;
    long long allocstall;
    long long swouts;
    long long swins;
    long long tcpsock;
    long long udpsock;
    long long commitlim;
    long long committed;
    long long shmem;
    long long shmrss;
    long long shmswp;
    long long slabreclaim;
    long long stothugepage;
    long long sfreehugepage;
    long long shugepagesz;
    long long vmwballoon;
    long long zfsarcsize;
    long long swapcached;
    long long ksmsharing;
    long long ksmshared;
    long long zswapped;
    long long zswap;
    long long oomkills;
    long long compactstall;
    long long pgmigrate;
    long long numamigrate;
    long long pgouts;
    long long pgins;
    long long pagetables;
    long long zswouts;
    long long zswins;
    long long ltothugepage;
    long long lfreehugepage;
    long long lhugepagesz;
    long long availablemem;
    long long anonhugepage;
    long long cfuture[4];
};

struct IPv4Stats {
    long long Forwarding;
    long long DefaultTTL;
    long long InReceives;
    long long InHdrErrors;
    long long InAddrErrors;
    long long ForwDatagrams;
    long long InUnknownProtos;
    long long InDiscards;
    long long InDelivers;
    long long OutRequests;
    long long OutDiscards;
    long long OutNoRoutes;
    long long ReasmTimeout;
    long long ReasmReqds;
    long long ReasmOKs;
    long long ReasmFails;
    long long FragOKs;
    long long FragFails;
    long long FragCreates;
};

struct ICMPv4Stats {
    long long InMsgs;
    long long InErrors;
    long long InCsumErrors;
    long long InDestUnreachs;
    long long InTimeExcds;
    long long InParmProbs;
    long long InSrcQuenchs;
    long long InRedirects;
    long long InEchos;
    long long InEchoReps;
    long long InTimestamps;
    long long InTimestampReps;
    long long InAddrMasks;
    long long InAddrMaskReps;
    long long OutMsgs;
    long long OutErrors;
    long long OutDestUnreachs;
    long long OutTimeExcds;
    long long OutParmProbs;
    long long OutSrcQuenchs;
    long long OutRedirects;
    long long OutEchos;
    long long OutEchoReps;
    long long OutTimestamps;
    long long OutTimestampReps;
    long long OutAddrMasks;
    long long OutAddrMaskReps;
};

struct UDPv4Stats {
    long long InDatagrams;
    long long NoPorts;
    long long InErrors;
    long long OutDatagrams;
};

struct IPv6Stats {
    long long Ip6InReceives;
    long long Ip6InHdrErrors;
    long long Ip6InTooBigErrors;
    long long Ip6InNoRoutes;
    long long Ip6InAddrErrors;
    long long Ip6InUnknownProtos;
    long long Ip6InTruncatedPkts;
    long long Ip6InDiscards;
    long long Ip6InDelivers;
    long long Ip6OutForwDatagrams;
    long long Ip6OutRequests;
    long long Ip6OutDiscards;
    long long Ip6OutNoRoutes;
    long long Ip6ReasmTimeout;
    long long Ip6ReasmReqds;
    long long Ip6ReasmOKs;
    long long Ip6ReasmFails;
    long long Ip6FragOKs;
    long long Ip6FragFails;
    long long Ip6FragCreates;
    long long Ip6InMcastPkts;
    long long Ip6OutMcastPkts;
};

struct ICMPv6Stats {
    long long Icmp6InMsgs;
    long long Icmp6InErrors;
    long long Icmp6InDestUnreachs;
    long long Icmp6InPktTooBigs;
    long long Icmp6InTimeExcds;
    long long Icmp6InParmProblems;
    long long Icmp6InEchos;
    long long Icmp6InEchoReplies;
    long long Icmp6InGroupMembQueries;
    long long Icmp6InGroupMembResponses;
    long long Icmp6InGroupMembReductions;
    long long Icmp6InRouterSolicits;
    long long Icmp6InRouterAdvertisements;
    long long Icmp6InNeighborSolicits;
    long long Icmp6InNeighborAdvertisements;
    long long Icmp6InRedirects;
    long long Icmp6OutMsgs;
    long long Icmp6OutDestUnreachs;
    long long Icmp6OutPktTooBigs;
    long long Icmp6OutTimeExcds;
    long long Icmp6OutParmProblems;
    long long Icmp6OutEchoReplies;
    long long Icmp6OutRouterSolicits;
    long long Icmp6OutNeighborSolicits;
    long long Icmp6OutNeighborAdvertisements;
    long long Icmp6OutRedirects;
    long long Icmp6OutGroupMembResponses;
    long long Icmp6OutGroupMembReductions;
};

struct UDPv6Stats {
    long long Udp6InDatagrams;
    long long Udp6NoPorts;
    long long Udp6InErrors;
    long long Udp6OutDatagrams;
};

struct TCPStats {
    long long RtoAlgorithm;
    long long RtoMin;
    long long RtoMax;
    long long MaxConn;
    long long ActiveOpens;
    long long PassiveOpens;
    long long AttemptFails;
    long long EstabResets;
    long long CurrEstab;
    long long InSegs;
    long long OutSegs;
    long long RetransSegs;
    long long InErrs;
    long long OutRsts;
    long long InCsumErrors;
};

struct NETStat {
    struct IPv4Stats ipv4;
    struct ICMPv4Stats icmpv4;
    struct UDPv4Stats udpv4;
    struct IPv6Stats ipv6;
    struct ICMPv6Stats icmpv6;
    struct UDPv6Stats udpv6;
    struct TCPStats tcp;
};

struct PerIntf {
    char name[16];
    long long rbyte;
    long long rpack;
    long long rerrs;
    long long rdrop;
    long long rfifo;
    long long rframe;
    long long rcompr;
    long long rmultic;
    long long rfuture[4];
    long long sbyte;
    long long spack;
    long long serrs;
    long long sdrop;
    long long sfifo;
    long long scollis;
    long long scarrier;
    long long scompr;
    long long sfuture[4];
    char type;
    long long speed;
    long long speedp;
    char duplex;
    long long cfuture[4];
};

struct IntfStat {
    int nrintf;
    struct PerIntf intf[128];
};

struct MemPerNUMA {
    int numanr;
    float frag;
    long long totmem;
    long long freemem;
    long long filepage;
    long long dirtymem;
    long long slabmem;
    long long slabreclaim;
    long long active;
    long long inactive;
    long long shmem;
    long long tothp;
    long long freehp;
};

struct MemNUMA {
    long long nrnuma;
    struct MemPerNUMA numa[1024];
};

struct CPUPerNUMA {
    int numanr;
    long long nrcpu;
    long long stime;
    long long utime;
    long long ntime;
    long long itime;
    long long wtime;
    long long Itime;
    long long Stime;
    long long steal;
    long long guest;
};

struct CPUNUMA {
    long long nrnuma;
    struct CPUPerNUMA numa[1024];
};

struct PerDSK {
    char name[32];
    long long nread;
    long long nrsect;
    long long nwrite;
    long long nwsect;
    long long io_ms;
    long long avque;
    long long ndisc;
    long long ndsect;
    long long inflight;
    long long cfuture[3];
};

struct DSKStat {
    int ndsk;
    int nmdd;
    int nlvm;
    struct PerDSK dsk[1024];
    struct PerDSK mdd[256];
    struct PerDSK lvm[2048];
};

struct Server {
    long long netcnt;
    long long netudpcnt;
    long long nettcpcnt;
    long long nettcpcon;
    long long rpccnt;
    long long rpcbadfmt;
    long long rpcbadaut;
    long long rpcbadcln;
    long long rpcread;
    long long rpcwrite;
    long long rchits;
    long long rcmiss;
    long long rcnoca;
    long long nrbytes;
    long long nwbytes;
    long long future[8];
};

struct Client {
    long long rpccnt;
    long long rpcretrans;
    long long rpcautrefresh;
    long long rpcread;
    long long rpcwrite;
    long long future[8];
};

struct PerNFSMount {
    char mountdev[128];
    long long age;
    long long bytesread;
    long long byteswrite;
    long long bytesdread;
    long long bytesdwrite;
    long long bytestotread;
    long long bytestotwrite;
    long long pagesmread;
    long long pagesmwrite;
    long long future[8];
};

struct NFSMounts {
    int nrmounts;
    struct PerNFSMount nfsmnt[64];
};

struct NFSStat {
    struct Server server;
    struct Client client;
    struct NFSMounts nfsmounts;
};

struct PerContainer {
    unsigned long ctid;
    unsigned long numproc;
    long long system;
    long long user;
    long long nice;
    long long uptime;
    long long physpages;
};

struct ContStat {
    int nrcontainer;
    struct PerContainer cont[128];
};

struct PSI {
    float avg10;
    float avg60;
    float avg300;
    long long total;
};

struct Pressure {
    char present;
    char future[3];
    struct PSI cpusome;
    struct PSI memsome;
    struct PSI memfull;
    struct PSI iosome;
    struct PSI iofull;
};

struct PerGPU {
    char taskstats;
    unsigned char nrprocs;
    char type[13];
    char busid[13];
    int gpunr;
    int gpupercnow;
    int mempercnow;
    long long memtotnow;
    long long memusenow;
    long long samples;
    long long gpuperccum;
    long long memperccum;
    long long memusecum;
};

struct GPUStat {
    int nrgpus;
    struct PerGPU gpu[32];
};

struct PerIFB {
    char ibname[12];
    short portnr;
    short lanes;
    long long rate;
    long long rcvb;
    long long sndb;
    long long rcvp;
    long long sndp;
};

struct IFBStat {
    int nrports;
    struct PerIFB ifb[32];
};

struct PerLLC {
    unsigned char id;
    float occupancy;
    long long mbm_local;
    long long mbm_total;
};

struct LLCStat {
    int nrllcs;
    struct PerLLC perllc[256];
};

struct WWWStat {
    long long accesses;
    long long totkbytes;
    long long uptime;
    int bworkers;
    int iworkers;
};

struct SStat {
    struct CPUStat cpu;
    struct MemStat mem;
    struct NETStat net;
    struct IntfStat intf;
    struct MemNUMA memnuma;
    struct CPUNUMA cpunuma;
    struct DSKStat dsk;
    struct NFSStat nfs;
    struct ContStat cfs;
    struct Pressure psi;
    struct GPUStat gpu;
    struct IFBStat ifb;
    struct LLCStat llc;
    struct WWWStat www;
};

struct GEN {
    int tgid;
    int pid;
    int ppid;
    int ruid;
    int euid;
    int suid;
    int fsuid;
    int rgid;
    int egid;
    int sgid;
    int fsgid;
    int nthr;
    char name[16];
    char isproc;
    char state;
    int excode;
    long long btime;
    long long elaps;
    char cmdline[256];
    int nthrslpi;
    int nthrslpu;
    int nthrrun;
    int nthridle;
    int ctid;
    int vpid;
    int wasinactive;
    char utsname[16];
    char cgpath[64];
};

struct CPU {
    long long utime;
    long long stime;
    int nice;
    int prio;
    int rtprio;
    int policy;
    int curcpu;
    int sleepavg;
    int cgcpuweight;
    int cgcpumax;
    int cgcpumaxr;
    int ifuture[3];
    char wchan[16];
    long long rundelay;
    long long blkdelay;
    long long nvcsw;
    long long nivcsw;
    long long cfuture[3];
};

struct DSK {
    long long rio;
    long long rsz;
    long long wio;
    long long wsz;
    long long cwsz;
    long long cfuture[4];
};

struct MEM {
    long long minflt;
    long long majflt;
    long long vexec;
    long long vmem;
    long long rmem;
    long long pmem;
    long long vgrow;
    long long rgrow;
    long long vdata;
    long long vstack;
    long long vlibs;
    long long vswap;
    long long vlock;
    long long cgmemmax;
    long long cgmemmaxr;
    long long cgswpmax;
    long long cgswpmaxr;
    long long cfuture[3];
};

struct NET {
    long long tcpsnd;
    long long tcpssz;
    long long tcprcv;
    long long tcprsz;
    long long udpsnd;
    long long udpssz;
    long long udprcv;
    long long udprsz;
    long long avail1;
    long long avail2;
    long long cfuture[4];
};

struct GPU {
    char state;
    char cfuture[3];
    short nrgpus;
    int gpulist;
    int gpubusy;
    int membusy;
    long long timems;
    long long memnow;
    long long memcum;
    long long sample;
};

struct TStat {
    struct GEN gen;
    struct CPU cpu;
    struct DSK dsk;
    struct MEM mem;
    struct NET net;
    struct GPU gpu;
};
