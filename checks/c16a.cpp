#include "c16_ops.h"
namespace ops {
static Add add_ops(std::vector<Op>{
        OP("flip_horizontal", flip_horizontal(i.c)), OP("flip_vertical", flip_vertical(i.d)), OP("flip_horizontal_vertical", flip_horizontal_vertical(i.g)),
        OP("rgb2hsv", rgb2hsv(i.c)), OP("hsv2rgb", hsv2rgb(i.v)), OP("convert_image", convert_image<RGB_DOUBLE>(i.c)), OP("im2uint8", im2uint8(abs(i.d))), OP("im2double", im2double(i.g)),
        OP("getRplane", getRplane(i.c)), OP("getGplane", getGplane(i.c)), OP("getBplane", getBplane(i.c)), OP("getHplane", getHplane(i.v)), OP("getVplane", getVplane(i.v)),
        OP("constructRGB", constructRGB(i.g, i.g, i.g)), OP("constructHSV", constructHSV(i.d, i.e, i.d)), OP("constructMultiChannel", constructMultiChannel(i.d, i.e)),
        OP("Grayscale2RGB", Grayscale2RGB(i.g)), OP("increase_intensity", increase_intensity(i.c, i.t)),
        OP("copyResizeBicubic", copyResizeBicubic(i.d, i.w + i.n, i.hh / 2 + 1)), OP("copyResizeBicubic_rgb", copyResizeBicubic(i.c, i.w / 2 + i.n, i.hh + 1)), OP("resize_nearest_neighbor", resize_nearest_neighbor(i.c, i.w * i.n, i.hh / 2 + 1)),
        OP("lanczos_resample", lanczos_resample(i.d, i.w / 2 + i.n, i.hh / 2 + 2, (int)i.n + 1)), OP("lanczos_resample_rgb", lanczos_resample(i.c, i.w / 2 + i.n, i.hh / 2 + 2)),
        OP("dct2", dct2(i.d)), OP("idct2", idct2(i.d)), OP("dct2_rgb", dct2(i.cd)), OP("dft2", dft2(i.k)),
        OP("gaussianFigure2D", gaussianFigure2D(i.w, i.hh, i.w / 2, i.n, i.sigma + 1)), OP("gaussianFigure2D_cov", gaussianFigure2D(i.w, i.hh, i.n, i.hh / 2, i.t, 1.0, 0.1 * (double)i.n)),
        OP("imgaussfilt", imgaussfilt(i.d, i.sigma, i.flag ? 3 : 1)), OP("imgaussfilt_rgb", imgaussfilt(i.cd, i.sigma, 3)), OP("difference_of_gaussian", difference_of_gaussian(i.d, 0.3 + 0.02 * i.t, 0.4)),
        OP("sort", sort(i.d)), OP("normalize", normalize(i.d)), OP("min", min(i.d)), OP("max", max(i.d)), OP("sum", sum(i.d)), OP("count", count(i.g, (unsigned char)(i.n + 6))), OP("unique_value", unique_value(i.g, (unsigned char)(i.n + 8))),
        OP("manhattan_distance", manhattan_distance(i.d, i.e)), OP("euclidean_distance", euclidean_distance(i.d, i.e)), OP("difference", difference(i.d, i.e)),
});
} // namespace ops
