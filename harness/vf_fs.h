/*
 * vf_fs.h - a directory with a file being replaced, and the calls that act on
 * it. Call number vf_sys_fail_at fails. A mapping is the last bytes of a fixed
 * block; unmapped memory is indeterminate. Renaming onto the final name is only
 * right once everything written has been synced.
 */
#ifndef VF_FS_H
#define VF_FS_H 1
#ifndef FSZ
#define FSZ  2048
#endif
#define VF_FINAL  "d/f"
typedef struct { int exists, synced; size_t size; char data[FSZ]; } vf_file;
static vf_file vf_fin, vf_tmp;          /* d/f, and the temporary beside it */
static char vf_page[FSZ];               /* where files are mapped */
static vf_file *vf_mapf; static size_t vf_mapn; static int vf_map_rw;
static int vf_fds[3];                   /* fd 10: final, 11: temporary */
static int vf_sys, vf_sys_fail_at, vf_sys_failed, vf_renamed, vf_fd_live, vf_map_live;
static char vf_tmpname[64];
static char vf_synced[FSZ];

#define VF_SYS()  if (vf_sys++ == vf_sys_fail_at) { vf_sys_failed = 1; errno = vf_errno = VF_ERR(vf_sys); return -1; }
#define VF_MAPPTR ((void *)(vf_page + FSZ - vf_mapn))

static int vf_path_eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
static vf_file *vf_by_name(const char *p)
{
    if (vf_path_eq(p, VF_FINAL)) return &vf_fin;
    if (vf_tmp.exists && vf_path_eq(p, vf_tmpname)) return &vf_tmp;
    return 0;
}
static vf_file *vf_by_fd(int fd)
{
    if (fd == 10 && vf_fds[0]) return &vf_fin;
    if (fd == 11 && vf_fds[1]) return &vf_tmp;
    VF_fail();
    return 0;
}
static int vf_mkostemp(char *t, int fl)
{
    size_t n = strlen(t);
    PROVE(n > 8 && n < sizeof vf_tmpname && strcmp(t + n - 6, "XXXXXX") == 0);
    PROVE(t[0] == 'd' && t[1] == '/' && strchr(t + 2, '/') == 0);   /* same directory: rename is atomic */
    VF_SYS();
    memcpy(t + n - 6, "aZ09bc", 6);
    memcpy(vf_tmpname, t, n + 1);
    vf_tmp.exists = 1; vf_tmp.size = 0; vf_tmp.synced = 0;
    PROVE(!vf_fds[1]);
    vf_fds[1] = 1; vf_fd_live++;
    return 11;
}
static int vf_mkstemp(char *t) { return vf_mkostemp(t, 0); }
static int vf_open(const char *p, int fl)
{
    PROVE((fl & O_ACCMODE) == O_RDONLY);
    PROVE(vf_path_eq(p, VF_FINAL));
    if (!vf_fin.exists) { errno = ENOENT; return -1; }
    VF_SYS();
    PROVE(!vf_fds[0]);
    vf_fds[0] = 1; vf_fd_live++;
    return 10;
}
static int vf_close(int fd)
{
    if (!vf_by_fd(fd)) return -1;
    vf_fds[fd - 10] = 0; vf_fd_live--;
    return 0;
}
static int vf_fstat(int fd, struct stat *st)
{
    vf_file *f = vf_by_fd(fd);
    if (!f) return -1;
    VF_SYS();
    st->st_size = f->size;
    return 0;
}
static int vf_ftruncate(int fd, off_t n)
{
    vf_file *f = vf_by_fd(fd);
    if (!f || n < 0 || n > FSZ) { VF_fail(); return -1; }
    PROVE(f == &vf_tmp);
    VF_SYS();
    f->size = n; f->synced = 0;
    memset(f->data, 0, FSZ);
    return 0;
}
static void *vf_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o)
{
    vf_file *f = vf_by_fd(fd);
    if (!f || n > FSZ) { VF_fail(); return MAP_FAILED; }
    PROVE(n <= f->size && n > 0 && o == 0 && !vf_map_live);
    if (vf_sys++ == vf_sys_fail_at) { vf_sys_failed = 1; errno = vf_errno = VF_ERR(vf_sys); return MAP_FAILED; }
    vf_mapf = f; vf_mapn = n; vf_map_live++;
    vf_map_rw = (prot & PROT_WRITE) && (fl & MAP_SHARED);
    PROVE((f == &vf_tmp) == !!vf_map_rw);
    memcpy(VF_MAPPTR, f->data, n);
    return VF_MAPPTR;
}
static void vf_flush(void)      /* the kernel writes a shared mapping's pages */
{
    if (vf_map_live && vf_map_rw) {
        if (memcmp(vf_mapf->data, VF_MAPPTR, vf_mapn)) vf_mapf->synced = 0;
        memcpy(vf_mapf->data, VF_MAPPTR, vf_mapn);
    }
}
static int vf_munmap(void *p, size_t n)
{
    char gone[FSZ];
    PROVE(vf_map_live && n == vf_mapn && p == VF_MAPPTR);
    vf_flush();
    /* any written page may still be only in memory */
    if (vf_map_rw) vf_mapf->synced = 0;
    memcpy(vf_page, gone, FSZ);
    vf_map_live--;
    return 0;
}
static int vf_fsync(int fd)
{
    vf_file *f = vf_by_fd(fd);
    if (!f) return -1;
    VF_SYS();
    vf_flush();
    f->synced = 1;
    memcpy(vf_synced, f->data, FSZ);
    return 0;
}
static int vf_msync(void *p, size_t n, int fl) { PROVE(vf_map_live && p == VF_MAPPTR && n <= vf_mapn); VF_SYS(); vf_flush(); if (fl & MS_SYNC) vf_mapf->synced = 1; return 0; }
static int vf_rename(const char *a, const char *b)
{
    PROVE(vf_by_name(a) == &vf_tmp && vf_path_eq(b, VF_FINAL));
    PROVE(vf_tmp.synced);
    if (vf_map_live && vf_map_rw) { vf_flush(); PROVE(vf_tmp.synced); }
    VF_SYS();
    vf_fin.exists = 1; vf_fin.size = vf_tmp.size; vf_fin.synced = 1;
    memcpy(vf_fin.data, vf_tmp.data, FSZ);
    vf_tmp.exists = 0;
    vf_renamed++;
    return 0;
}
static int vf_unlink(const char *p)
{
    PROVE(vf_by_name(p) == &vf_tmp);
    vf_tmp.exists = 0;
    return 0;
}
#define VF_PAGESZ 64
static long vf_sysconf(int w) { PROVE(w == _SC_PAGESIZE); return VF_PAGESZ; }

/* the name holds an older version of 'old' bytes (or nothing) */
static void vf_fs_reset(int old, int fail_at)
{
    vf_fin.exists = old > 0; vf_fin.size = old; vf_fin.synced = 1;
    for (int i = 0; i < old; i++) vf_fin.data[i] = i;
    vf_tmp.exists = 0;
    vf_mapf = 0; vf_sys = vf_sys_failed = vf_renamed = vf_fd_live = vf_map_live = 0; vf_turn++;
    vf_fds[0] = vf_fds[1] = 0;
    vf_sys_fail_at = fail_at;
}
static void vf_fs_old(int old)
{
    PROVE(vf_fin.exists == (old > 0) && (!old || (int)vf_fin.size == old));
    for (int i = 0; i < old; i++) PROVE(vf_fin.data[i] == (char)i);
}
#define mkostemp  vf_mkostemp
#define mkstemp   vf_mkstemp
#define open      vf_open
#define close     vf_close
#define fstat     vf_fstat
#define ftruncate vf_ftruncate
#define mmap      vf_mmap
#define munmap    vf_munmap
#define msync     vf_msync
#define fsync     vf_fsync
#define fdatasync vf_fsync
#define rename    vf_rename
#define unlink    vf_unlink
#define sysconf   vf_sysconf
#endif
