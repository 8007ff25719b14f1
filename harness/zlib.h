/* the part of zlib's interface the wrappers use; its functions are modelled in the harness */
#ifndef VF_ZLIB_H
#define VF_ZLIB_H 1
typedef unsigned char Byte;
typedef Byte Bytef;
typedef unsigned int uInt;
typedef unsigned long uLong;
typedef void *voidpf;
typedef struct z_stream_s {
    Bytef *next_in;
    uInt avail_in;
    uLong total_in;
    Bytef *next_out;
    uInt avail_out;
    uLong total_out;
    const char *msg;
    struct internal_state *state;
    void *zalloc, *zfree, *opaque;
    int data_type;
    uLong adler;
    uLong reserved;
} z_stream;
typedef z_stream *z_streamp;
#define Z_NO_FLUSH      0
#define Z_PARTIAL_FLUSH 1
#define Z_SYNC_FLUSH    2
#define Z_FULL_FLUSH    3
#define Z_FINISH        4
#define Z_OK            0
#define Z_STREAM_END    1
#define Z_NEED_DICT     2
#define Z_ERRNO         (-1)
#define Z_STREAM_ERROR  (-2)
#define Z_DATA_ERROR    (-3)
#define Z_MEM_ERROR     (-4)
#define Z_BUF_ERROR     (-5)
#define Z_DEFLATED      8
#define MAX_MEM_LEVEL   9
#define MAX_WBITS       15
#define Z_DEFAULT_STRATEGY 0
#define Z_DEFAULT_COMPRESSION (-1)
int deflateInit2(z_streamp, int, int, int, int, int);
int deflate(z_streamp, int);
int deflateEnd(z_streamp);
int inflateInit2(z_streamp, int);
int inflate(z_streamp, int);
int inflateEnd(z_streamp);
#endif
