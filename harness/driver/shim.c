/* Decodes with the system libjpeg (v8 ABI, found at run time; no headers are installed, so the public structures
   are declared here). Built into a shared object the driver loads; absent libjpeg makes ljt_open fail. */
#include <dlfcn.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef int boolean;
typedef unsigned int JDIMENSION;
struct cinfo;
struct err_mgr {
  void (*error_exit)(struct cinfo *);
  void (*emit_message)(struct cinfo *, int);
  void (*output_message)(struct cinfo *);
  void (*format_message)(struct cinfo *, char *);
  void (*reset_error_mgr)(struct cinfo *);
  int msg_code;
  union { int i[8]; char s[80]; } msg_parm;
  int trace_level;
  long num_warnings;
  const char *const *tbl; int last;
  const char *const *addon; int first_addon, last_addon;
};
struct cinfo {
  struct err_mgr *err; void *mem; void *progress; void *client_data;
  boolean is_decompressor; int global_state;
  void *src;
  JDIMENSION image_width, image_height; int num_components; int jpeg_color_space;
  int out_color_space; unsigned scale_num, scale_denom; double output_gamma;
  boolean buffered_image, raw_data_out; int dct_method; boolean do_fancy_upsampling, do_block_smoothing;
  boolean quantize_colors; int dither_mode; boolean two_pass_quantize; int desired_number_of_colors;
  boolean e1, e2, e3;
  JDIMENSION output_width, output_height; int out_color_components, output_components, rec_outbuf_height;
  int actual_number_of_colors; void *colormap;
  JDIMENSION output_scanline;
  char rest[512];
};
static void *(*p_std_error)(struct err_mgr *);
static void (*p_create)(struct cinfo *, int, size_t);
static void (*p_mem_src)(struct cinfo *, const unsigned char *, unsigned long);
static int (*p_read_header)(struct cinfo *, boolean);
static boolean (*p_start)(struct cinfo *);
static JDIMENSION (*p_read)(struct cinfo *, unsigned char **, JDIMENSION);
static boolean (*p_finish)(struct cinfo *);
static void (*p_destroy)(struct cinfo *);

int ljt_open(void) {
  void *h = dlopen("libjpeg.so.8", RTLD_NOW | RTLD_LOCAL);
  if (!h) return -1;
  p_std_error = dlsym(h, "jpeg_std_error");
  p_create = dlsym(h, "jpeg_CreateDecompress");
  p_mem_src = dlsym(h, "jpeg_mem_src");
  p_read_header = dlsym(h, "jpeg_read_header");
  p_start = dlsym(h, "jpeg_start_decompress");
  p_read = dlsym(h, "jpeg_read_scanlines");
  p_finish = dlsym(h, "jpeg_finish_decompress");
  p_destroy = dlsym(h, "jpeg_destroy_decompress");
  return p_std_error && p_create && p_mem_src && p_read_header && p_start && p_read && p_finish && p_destroy ? 0 : -1;
}
struct em { struct err_mgr e; jmp_buf jb; char msg[256]; long warnings; };
static void on_exit_(struct cinfo *c) {
  struct em *m = (struct em *)c->err;
  m->e.format_message(c, m->msg);
  longjmp(m->jb, 1);
}
static void on_msg(struct cinfo *c, int level) {
  struct em *m = (struct em *)c->err;
  if (level < 0) { if (m->warnings++ == 0) m->e.format_message(c, m->msg); }
}
static void on_out(struct cinfo *c) { (void)c; }
/* result: 0 ok, 1 error, 2 does not fit. info: width, height, components, jpeg colour space, warnings, out components */
int ljt_decode(const unsigned char *d, unsigned long n, int out_space, unsigned char *out, unsigned long cap, int *info, char *msg) {
  struct cinfo c; struct em m;
  memset(&c, 0, sizeof c); memset(&m, 0, sizeof m);
  c.err = p_std_error(&m.e);
  m.e.error_exit = on_exit_; m.e.emit_message = on_msg; m.e.output_message = on_out;
  if (setjmp(m.jb)) {
    strcpy(msg, m.msg); info[4] = (int)m.warnings;
    p_destroy(&c);
    return 1;
  }
  p_create(&c, 80, 656);
  p_mem_src(&c, d, n);
  p_read_header(&c, 1);
  info[0] = (int)c.image_width; info[1] = (int)c.image_height; info[2] = c.num_components; info[3] = c.jpeg_color_space;
  if (out_space > 0) c.out_color_space = out_space;
  c.dct_method = 0; c.do_fancy_upsampling = 0; c.do_block_smoothing = 0;
  p_start(&c);
  info[5] = c.out_color_components;
  unsigned long stride = (unsigned long)c.output_width * c.out_color_components;
  if (stride * c.output_height > cap) { p_destroy(&c); return 2; }
  while (c.output_scanline < c.output_height) {
    unsigned char *row = out + stride * c.output_scanline;
    p_read(&c, &row, 1);
  }
  p_finish(&c);
  info[4] = (int)m.warnings;
  if (m.warnings) strcpy(msg, m.msg);
  p_destroy(&c);
  return 0;
}
