/* The part of Intel's library the repository calls, by its definition: row-major products of matrices, and linear convolution with
   a start and a decimation. It is compiled into the repository's files, so its memory accesses are checked like theirs. */
#pragma once
#include <stdlib.h>

enum CBLAS_ORDER { CblasRowMajor = 101, CblasColMajor = 102 };
enum CBLAS_TRANSPOSE { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 };
enum { VSL_STATUS_OK = 0, VSL_CONV_MODE_AUTO = 0, VSL_CONV_MODE_DIRECT = 1, VSL_CONV_MODE_FFT = 2 };
typedef void* VSLConvTaskPtr;

namespace sim_mkl {
	/* As the library does, a call with an impossible leading dimension computes nothing. */
	template <class T> inline void gemm(CBLAS_ORDER order, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, T alpha, const T* a, int lda, const T* b, int ldb, T beta, T* c, int ldc) {
		if (order != CblasRowMajor || m < 0 || n < 0 || k < 0) return;
		if (lda < (ta == CblasNoTrans ? k : m) || lda < 1 || ldb < (tb == CblasNoTrans ? n : k) || ldb < 1 || ldc < n || ldc < 1) return;
		for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
			double sum = 0;
			for (int l = 0; l < k; ++l) sum += (double)(ta == CblasNoTrans ? a[(long)i * lda + l] : a[(long)l * lda + i]) * (tb == CblasNoTrans ? b[(long)l * ldb + j] : b[(long)j * ldb + l]);
			T& out = c[(long)i * ldc + j];
			out = beta == 0 ? (T)(alpha * sum) : (T)(alpha * sum + beta * out);
		}
	}

	enum { DIMS = 16 };
	struct task { int dims, bytes, x[DIMS], y[DIMS], z[DIMS], start[DIMS], step[DIMS]; };

	inline int new_task(void** t, int bytes, int mode, int dims, const int* x, const int* y, const int* z) {
		*t = NULL;
		if (dims < 1 || dims > DIMS || mode < 0 || mode > 2) return -2300;
		for (int d = 0; d < dims; ++d) if (x[d] < 1 || y[d] < 1 || z[d] < 1) return -2301;
		task* k = (task*)malloc(sizeof(task));
		if (!k) return -2310;
		k->dims = dims; k->bytes = bytes;
		for (int d = 0; d < dims; ++d) { k->x[d] = x[d]; k->y[d] = y[d]; k->z[d] = z[d]; k->start[d] = 0; k->step[d] = 1; }
		*t = k;
		return VSL_STATUS_OK;
	}
	/* Where the element at index i of a function lies: with a negative stride the pointer names the element with the highest index. */
	inline long place(const int* size, const int* stride, const int* i, int dims) {
		long e = 0;
		for (int d = 0; d < dims; ++d) e += (long)stride[d] * (stride[d] < 0 ? i[d] - (size[d] - 1) : i[d]);
		return e;
	}
	inline bool next(int* i, const int* size, int dims) {
		for (int d = dims - 1; d >= 0; --d) { if (++i[d] < size[d]) return true; i[d] = 0; }
		return false;
	}
	template <class T> inline int run(void* t, const T* x, const int* xs, const T* y, const int* ys, T* z, const int* zs) {
		task* k = (task*)t;
		if (!k || k->bytes != (int)sizeof(T) || !x || !y || !z) return -2320;
		int r[DIMS] = {0};
		do {
			double sum = 0; int q[DIMS] = {0};
			do {
				int p[DIMS]; bool in = true;
				for (int d = 0; d < k->dims; ++d) { p[d] = k->start[d] + r[d] * k->step[d] - q[d]; in = in && p[d] >= 0 && p[d] < k->x[d]; }
				if (in) sum += (double)x[place(k->x, xs, p, k->dims)] * y[place(k->y, ys, q, k->dims)];
			} while (next(q, k->y, k->dims));
			z[place(k->z, zs, r, k->dims)] = (T)sum;
		} while (next(r, k->z, k->dims));
		return VSL_STATUS_OK;
	}
}

static inline void cblas_sgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, float alpha, const float* a, int lda, const float* b, int ldb, float beta, float* c, int ldc) { sim_mkl::gemm(o, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc); }
static inline void cblas_dgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, double alpha, const double* a, int lda, const double* b, int ldb, double beta, double* c, int ldc) { sim_mkl::gemm(o, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc); }
static inline int vslsConvNewTask(VSLConvTaskPtr* t, int mode, int dims, const int* x, const int* y, const int* z) { return sim_mkl::new_task(t, 4, mode, dims, x, y, z); }
static inline int vsldConvNewTask(VSLConvTaskPtr* t, int mode, int dims, const int* x, const int* y, const int* z) { return sim_mkl::new_task(t, 8, mode, dims, x, y, z); }
static inline int vslConvSetStart(VSLConvTaskPtr t, const int* start) { sim_mkl::task* k = (sim_mkl::task*)t; if (!k) return -2320; for (int d = 0; d < k->dims; ++d) k->start[d] = start[d]; return VSL_STATUS_OK; }
static inline int vslConvSetDecimation(VSLConvTaskPtr t, const int* step) { sim_mkl::task* k = (sim_mkl::task*)t; if (!k) return -2320; for (int d = 0; d < k->dims; ++d) { if (step[d] < 1) return -2302; k->step[d] = step[d]; } return VSL_STATUS_OK; }
static inline int vslsConvExec(VSLConvTaskPtr t, const float* x, const int* xs, const float* y, const int* ys, float* z, const int* zs) { return sim_mkl::run(t, x, xs, y, ys, z, zs); }
static inline int vsldConvExec(VSLConvTaskPtr t, const double* x, const int* xs, const double* y, const int* ys, double* z, const int* zs) { return sim_mkl::run(t, x, xs, y, ys, z, zs); }
static inline int vslConvDeleteTask(VSLConvTaskPtr* t) { if (!t) return -2320; free(*t); *t = NULL; return VSL_STATUS_OK; }
static inline void mkl_set_num_threads(int) {}
static inline void mkl_set_dynamic(int) {}
