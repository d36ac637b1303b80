// Shared by the image workloads: images, settings, the reference extractor and the comparison.
#pragma once
#include "common.h"
#include <basicmath.h>
using namespace basicmath;
#include <opencv2/core/core.hpp>
#include "img_types.h"
#include "img_img.h"
#include "img_connected_component.h"
#include "img_mser_base.h"
#include "img_mser_helper.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "img_linked_linear_mser.h"
#include "img_opencv3_mser.h"
#include "img_vlfeat_mser.h"
#include "img_idiap_mser.h"
#include "img_ms_mser.h"
#include "img_opencv_mser.h"
#include "img_origin_mser.h"
#include <algorithm>
#include <float.h>
#include <math.h>

namespace img {
using namespace basicmath; using namespace basicimg;
using sim::param; using sim::param_of; using sim::rng; using sim::violation; using sim::Sut; using sim::Rng;

struct Image { int w, h; std::vector<unsigned char> px; unsigned char at(int x, int y) const { return px[(size_t)y * w + x]; } };

struct Settings {
	int alg;                 // A_...
	int threads, delta, min_point, recursive, eight, pol; float dup, stable, nms, ratio;
};
enum { A_LINEAR = 0, A_V1 = 1, A_V2 = 2, A_CV = 3, A_VF = 4, A_ID = 5, A_MS = 6, A_OCV = 7, A_ORIG = 8 };      // from A_CV on: sequential extractors with rules of their own; no reference but themselves
inline bool has_boxes(int alg) { return alg == A_V1 || alg == A_V2 || alg == A_CV || alg == A_OCV || alg == A_LINEAR || alg == A_MS || alg == A_ORIG; }
const char* who_is(int alg);

struct Region {
	int pol, gray, size; std::vector<int> pix;      // sorted y * w + x
	int rect[4];                                    // left, top, width, height
	bool operator<(const Region& o) const { if (pol != o.pol) return pol < o.pol; if (gray != o.gray) return gray < o.gray; return pix < o.pix; }
	bool same(const Region& o) const { return pol == o.pol && gray == o.gray && pix == o.pix; }
};

void parts(const Settings& s, int& ph, int& pw);                     // how the extractor cuts the image
Image draw_image(int w, int h, const char* prefix = "");             // from params
Image draw_image_sized(const Settings& s, const char* prefix = "");  // size from params too
Settings draw_settings(int alg, const char* prefix = "");
std::string describe(const Settings& s, const Image& im);
std::vector<Region> reference(const Image& im, const Settings& s, const std::vector<char>* admitted = NULL, int max_points = -1, bool roots = false);
void check_truth(const std::vector<Region>& got, const Image& im, const Settings& s, const char* who, const std::vector<char>* admitted = NULL, int max_points = -1);
// the component tree, in gray order (a parent after its children); own pixels are y * w + x
struct Node { int gray, size, parent, flag; float var; std::vector<int> own, kids; };
void build_nodes(const Image& im, bool eight, int mask, std::vector<Node>& nodes, const std::vector<char>* on = NULL);
Region region_of(const std::vector<Node>& N, int i, int pol, const Image& im, int dx = 0, int dy = 0);      // moved by dx, dy
int tree_regions(const Image& im, const Settings& s, int pol);       // how many extremal regions there are

img_mser_base* make(int alg);                                        // inside a Sut scope
void configure(img_mser_base* e, const Settings& s);
// The image as the code under test sees it: a matrix of its own or a part of a bigger one.
struct Source { mt_mat* mat; Image im; std::vector<unsigned char> outer; int ow, oh, ox, oy; void open(const Image& i, int border); void check_untouched(const char* who); void close(); };
std::vector<Region> alone(const Image& im, const Settings& s);       // what a new extractor reports for the image
std::vector<Region> expected(const Image& im, const Settings& s);    // the reference or, where there is none, alone()
std::vector<Region> decode(const img_multi_msers& res, const Image& im, const char* who, bool pol_on[2], int alg = A_V1);
// throws a violation unless both are equal
void compare(const std::vector<Region>& got, const std::vector<Region>& want, const char* who, const Settings& s, const Image& im, bool rects);
// draws a few of the regions with the library's helper: exactly their pixels must appear
void check_drawn(const img_multi_msers& res, const Image& im, const Settings& s, const char* who);
sim::u64 hash_regions(const std::vector<Region>& r);
std::string show(const Region& r, int w);
}
