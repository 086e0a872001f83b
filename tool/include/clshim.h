/* OpenCL C built-ins the kernels use, in terms of plain arithmetic, so that their meaning is visible to the analysis */
typedef unsigned int uint;
typedef unsigned long ulong;
typedef __SIZE_TYPE__ size_t;
typedef double double2 __attribute__((ext_vector_type(2)));
typedef double double3 __attribute__((ext_vector_type(3)));
typedef double double4 __attribute__((ext_vector_type(4)));
typedef float float2 __attribute__((ext_vector_type(2)));
typedef float float3 __attribute__((ext_vector_type(3)));
typedef float float4 __attribute__((ext_vector_type(4)));
typedef uint cl_mem_fence_flags;
#define CLK_LOCAL_MEM_FENCE 1
#define CLK_GLOBAL_MEM_FENCE 2
#define NB_SHIM static inline __attribute__((overloadable, always_inline, const))
extern __constant size_t nb_get_global_id[4];
#define get_global_id(d) (nb_get_global_id[d])
extern __constant size_t nb_get_global_size[4];
#define get_global_size(d) (nb_get_global_size[d])
extern __constant size_t nb_get_global_offset[4];
#define get_global_offset(d) (nb_get_global_offset[d])
extern __constant size_t nb_get_local_id[4];
#define get_local_id(d) (nb_get_local_id[d])
extern __constant size_t nb_get_local_size[4];
#define get_local_size(d) (nb_get_local_size[d])
extern __constant size_t nb_get_group_id[4];
#define get_group_id(d) (nb_get_group_id[d])
extern __constant size_t nb_get_num_groups[4];
#define get_num_groups(d) (nb_get_num_groups[d])
void barrier(cl_mem_fence_flags);
void mem_fence(cl_mem_fence_flags);
NB_SHIM double sqrt(double x) { return __builtin_sqrt(x); }
NB_SHIM double rsqrt(double x) { return 1.0 / __builtin_sqrt(x); }
NB_SHIM double native_sqrt(double x) { return __builtin_sqrt(x); }
NB_SHIM double native_rsqrt(double x) { return 1.0 / __builtin_sqrt(x); }
NB_SHIM double fabs(double x) { return __builtin_fabs(x); }
NB_SHIM double fma(double a, double b, double c) { return a * b + c; }
NB_SHIM double mad(double a, double b, double c) { return a * b + c; }
NB_SHIM double max(double a, double b) { return a < b ? b : a; }
NB_SHIM double min(double a, double b) { return b < a ? b : a; }
NB_SHIM double fmax(double a, double b) { return a < b ? b : a; }
NB_SHIM double fmin(double a, double b) { return b < a ? b : a; }
NB_SHIM int max(int a, int b) { return a < b ? b : a; }
NB_SHIM int min(int a, int b) { return b < a ? b : a; }
NB_SHIM double clamp(double x, double a, double b) { return x < a ? a : (x > b ? b : x); }
NB_SHIM double dot(double3 a, double3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
NB_SHIM double length(double3 a) { return __builtin_sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
NB_SHIM double distance(double3 a, double3 b) { return length(a - b); }
NB_SHIM double3 min(double3 a, double3 b) { double3 r; r.x = min(a.x, b.x); r.y = min(a.y, b.y); r.z = min(a.z, b.z); return r; }
NB_SHIM double3 max(double3 a, double3 b) { double3 r; r.x = max(a.x, b.x); r.y = max(a.y, b.y); r.z = max(a.z, b.z); return r; }
NB_SHIM int ctz(int x) { return __builtin_ctz(x); }
NB_SHIM int clz(int x) { return __builtin_clz(x); }
