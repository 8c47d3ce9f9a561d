/* Calls every public function through the prototypes of the published header. */
#include "libimagequant.h"
#include <stdlib.h>
#include <string.h>
#define V void
void* w_liq_attr_create(void) { return liq_attr_create(); }
void* w_liq_attr_create_with_allocator(void* a, void* f) { return liq_attr_create_with_allocator(a, f); }
void* w_liq_attr_copy(void* a) { return liq_attr_copy(a); }
void w_liq_attr_destroy(void* a) { liq_attr_destroy(a); }
void* w_liq_histogram_create(void* a) { return liq_histogram_create(a); }
int w_liq_histogram_add_image(void* h, void* a, void* i) { return liq_histogram_add_image(h, a, i); }
int w_liq_histogram_add_colors(void* h, void* a, const void* e, int n, double g) { return liq_histogram_add_colors(h, a, e, n, g); }
int w_liq_histogram_add_fixed_color(void* h, liq_color c, double g) { return liq_histogram_add_fixed_color(h, c, g); }
void w_liq_histogram_destroy(void* h) { liq_histogram_destroy(h); }
int w_liq_set_max_colors(void* a, int v) { return liq_set_max_colors(a, v); }
int w_liq_get_max_colors(void* a) { return liq_get_max_colors(a); }
int w_liq_set_speed(void* a, int v) { return liq_set_speed(a, v); }
int w_liq_get_speed(void* a) { return liq_get_speed(a); }
int w_liq_set_min_opacity(void* a, int v) { return liq_set_min_opacity(a, v); }
int w_liq_get_min_opacity(void* a) { return liq_get_min_opacity(a); }
int w_liq_set_min_posterization(void* a, int v) { return liq_set_min_posterization(a, v); }
int w_liq_get_min_posterization(void* a) { return liq_get_min_posterization(a); }
int w_liq_set_quality(void* a, int m, int t) { return liq_set_quality(a, m, t); }
int w_liq_get_min_quality(void* a) { return liq_get_min_quality(a); }
int w_liq_get_max_quality(void* a) { return liq_get_max_quality(a); }
void w_liq_set_last_index_transparent(void* a, int v) { liq_set_last_index_transparent(a, v); }
void w_liq_set_log_callback(void* a, void* f, void* u) { liq_set_log_callback(a, (liq_log_callback_function*)f, u); }
void w_liq_set_log_flush_callback(void* a, void* f, void* u) { liq_set_log_flush_callback(a, (liq_log_flush_callback_function*)f, u); }
void w_liq_attr_set_progress_callback(void* a, void* f, void* u) { liq_attr_set_progress_callback(a, (liq_progress_callback_function*)f, u); }
void w_liq_result_set_progress_callback(void* a, void* f, void* u) { liq_result_set_progress_callback(a, (liq_progress_callback_function*)f, u); }
void* w_liq_image_create_rgba_rows(void* a, void* rows, int w, int h, double g) { return liq_image_create_rgba_rows(a, (void* const*)rows, w, h, g); }
void* w_liq_image_create_rgba(void* a, const void* b, int w, int h, double g) { return liq_image_create_rgba(a, b, w, h, g); }
void* w_liq_image_create_custom(void* a, void* f, void* u, int w, int h, double g) { return liq_image_create_custom(a, (liq_image_get_rgba_row_callback*)f, u, w, h, g); }
int w_liq_image_set_memory_ownership(void* i, int f) { return liq_image_set_memory_ownership(i, f); }
int w_liq_image_set_background(void* i, void* b) { return liq_image_set_background(i, b); }
int w_liq_image_set_importance_map(void* i, void* b, size_t n, int o) { return liq_image_set_importance_map(i, b, n, (enum liq_ownership)o); }
int w_liq_image_add_fixed_color(void* i, liq_color c) { return liq_image_add_fixed_color(i, c); }
int w_liq_image_get_width(void* i) { return liq_image_get_width(i); }
int w_liq_image_get_height(void* i) { return liq_image_get_height(i); }
void w_liq_image_destroy(void* i) { liq_image_destroy(i); }
int w_liq_histogram_quantize(void* h, void* a, void* r) { return liq_histogram_quantize(h, a, (liq_result**)r); }
int w_liq_image_quantize(void* i, void* a, void* r) { return liq_image_quantize(i, a, (liq_result**)r); }
void* w_liq_quantize_image(void* a, void* i) { return liq_quantize_image(a, i); }
int w_liq_set_dithering_level(void* r, float v) { return liq_set_dithering_level(r, v); }
int w_liq_set_output_gamma(void* r, double v) { return liq_set_output_gamma(r, v); }
double w_liq_get_output_gamma(void* r) { return liq_get_output_gamma(r); }
/* reads the palette through the header's structure; returns the count or -1 */
int w_liq_get_palette(void* r, unsigned char* out) {
    const liq_palette* p = liq_get_palette(r);
    if (!p) return -1;
    for (unsigned i = 0; i < p->count && i < 256; i++) { out[4*i] = p->entries[i].r; out[4*i+1] = p->entries[i].g; out[4*i+2] = p->entries[i].b; out[4*i+3] = p->entries[i].a; }
    return (int)p->count;
}
int w_liq_write_remapped_image(void* r, void* i, void* b, size_t n) { return liq_write_remapped_image(r, i, b, n); }
int w_liq_write_remapped_image_rows(void* r, void* i, void* rows) { return liq_write_remapped_image_rows(r, i, (unsigned char**)rows); }
double w_liq_get_quantization_error(void* r) { return liq_get_quantization_error(r); }
int w_liq_get_quantization_quality(void* r) { return liq_get_quantization_quality(r); }
double w_liq_get_remapping_error(void* r) { return liq_get_remapping_error(r); }
int w_liq_get_remapping_quality(void* r) { return liq_get_remapping_quality(r); }
void w_liq_result_destroy(void* r) { liq_result_destroy(r); }
int w_liq_version(void) { return liq_version(); }

/* constants as the header declares them */
int w_const(int k) {
    static const int c[] = { LIQ_OK, LIQ_QUALITY_TOO_LOW, LIQ_VALUE_OUT_OF_RANGE, LIQ_OUT_OF_MEMORY, LIQ_ABORTED, LIQ_BITMAP_NOT_AVAILABLE, LIQ_BUFFER_TOO_SMALL, LIQ_INVALID_POINTER, LIQ_UNSUPPORTED,
        LIQ_OWN_ROWS, LIQ_OWN_PIXELS, LIQ_COPY_PIXELS, (int)sizeof(liq_color), (int)sizeof(liq_palette), (int)sizeof(liq_histogram_entry), (int)offsetof(liq_palette, entries), (int)offsetof(liq_histogram_entry, count),
        (int)offsetof(liq_color, r), (int)offsetof(liq_color, g), (int)offsetof(liq_color, b), (int)offsetof(liq_color, a), LIQ_VERSION };
    return k < (int)(sizeof(c)/sizeof(c[0])) ? c[k] : -1000;
}
