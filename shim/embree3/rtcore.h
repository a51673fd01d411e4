// Minimal stand-in for Embree 3 (no Embree 3 here, and the tree's Embree 4
// branch does not compile): every ray is tested against every triangle of the
// scene, in geometry/primitive order, in double precision.  Only the part of
// the API that ericw-tools uses.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <vector>

#define RTC_INVALID_GEOMETRY_ID ((unsigned int)-1)
#define RTC_MAX_INSTANCE_LEVEL_COUNT 1

struct alignas(16) RTCRay
{
    float org_x, org_y, org_z, tnear;
    float dir_x, dir_y, dir_z, time;
    float tfar;
    unsigned int mask, id, flags;
};
struct alignas(16) RTCHit
{
    float Ng_x, Ng_y, Ng_z, u, v;
    unsigned int primID, geomID;
    unsigned int instID[RTC_MAX_INSTANCE_LEVEL_COUNT];
};
struct alignas(16) RTCRayHit
{
    RTCRay ray;
    RTCHit hit;
};
struct RTCRayN;
struct RTCHitN;
struct RTCIntersectContext;
struct RTCFilterFunctionNArguments
{
    int *valid;
    void *geometryUserPtr;
    RTCIntersectContext *context;
    RTCRayN *ray;
    RTCHitN *hit;
    unsigned int N;
};
typedef void (*RTCFilterFunctionN)(const RTCFilterFunctionNArguments *args);
enum RTCIntersectContextFlags
{
    RTC_INTERSECT_CONTEXT_FLAG_NONE = 0,
    RTC_INTERSECT_CONTEXT_FLAG_COHERENT = 1
};
struct RTCIntersectContext
{
    RTCIntersectContextFlags flags;
    RTCFilterFunctionN filter;
    unsigned int instID[1];
};
inline void rtcInitIntersectContext(RTCIntersectContext *c)
{
    c->flags = RTC_INTERSECT_CONTEXT_FLAG_NONE;
    c->filter = nullptr;
    c->instID[0] = RTC_INVALID_GEOMETRY_ID;
}
// N is always 1 here: RTCRayN/RTCHitN are plain RTCRay/RTCHit
inline float &RTCRayN_org_x(RTCRayN *r, unsigned, unsigned) { return ((RTCRay *)r)->org_x; }
inline float &RTCRayN_org_y(RTCRayN *r, unsigned, unsigned) { return ((RTCRay *)r)->org_y; }
inline float &RTCRayN_org_z(RTCRayN *r, unsigned, unsigned) { return ((RTCRay *)r)->org_z; }
inline float &RTCRayN_dir_x(RTCRayN *r, unsigned, unsigned) { return ((RTCRay *)r)->dir_x; }
inline float &RTCRayN_dir_y(RTCRayN *r, unsigned, unsigned) { return ((RTCRay *)r)->dir_y; }
inline float &RTCRayN_dir_z(RTCRayN *r, unsigned, unsigned) { return ((RTCRay *)r)->dir_z; }
inline float &RTCRayN_tfar(RTCRayN *r, unsigned, unsigned) { return ((RTCRay *)r)->tfar; }
inline unsigned int &RTCRayN_id(RTCRayN *r, unsigned, unsigned) { return ((RTCRay *)r)->id; }
inline float &RTCHitN_Ng_x(RTCHitN *h, unsigned, unsigned) { return ((RTCHit *)h)->Ng_x; }
inline float &RTCHitN_Ng_y(RTCHitN *h, unsigned, unsigned) { return ((RTCHit *)h)->Ng_y; }
inline float &RTCHitN_Ng_z(RTCHitN *h, unsigned, unsigned) { return ((RTCHit *)h)->Ng_z; }
inline unsigned int &RTCHitN_primID(RTCHitN *h, unsigned, unsigned) { return ((RTCHit *)h)->primID; }
inline unsigned int &RTCHitN_geomID(RTCHitN *h, unsigned, unsigned) { return ((RTCHit *)h)->geomID; }

struct mc_rtc_geom
{
    std::vector<char> vbuf, ibuf;
    size_t vstride = 0, istride = 0, nverts = 0, ntris = 0;
    RTCFilterFunctionN intersect = nullptr, occluded = nullptr;
};
struct mc_rtc_scene
{
    std::vector<mc_rtc_geom *> geoms;
    ~mc_rtc_scene()
    {
        for (auto *g : geoms)
            delete g;
    }
};
typedef mc_rtc_geom *RTCGeometry;
typedef mc_rtc_scene *RTCScene;
struct mc_rtc_device
{
};
typedef mc_rtc_device *RTCDevice;
enum RTCError
{
    RTC_ERROR_NONE
};
enum RTCGeometryType
{
    RTC_GEOMETRY_TYPE_TRIANGLE
};
enum RTCBuildQuality
{
    RTC_BUILD_QUALITY_LOW,
    RTC_BUILD_QUALITY_MEDIUM,
    RTC_BUILD_QUALITY_HIGH
};
enum RTCBufferType
{
    RTC_BUFFER_TYPE_INDEX,
    RTC_BUFFER_TYPE_VERTEX
};
enum RTCFormat
{
    RTC_FORMAT_FLOAT3,
    RTC_FORMAT_UINT3
};
enum RTCSceneFlags
{
    RTC_SCENE_FLAG_CONTEXT_FILTER_FUNCTION
};
enum RTCDeviceProperty
{
    RTC_DEVICE_PROPERTY_VERSION_MAJOR,
    RTC_DEVICE_PROPERTY_VERSION_MINOR,
    RTC_DEVICE_PROPERTY_VERSION_PATCH
};
inline RTCDevice rtcNewDevice(const char *) { return new mc_rtc_device; }
inline void rtcReleaseDevice(RTCDevice d) { delete d; }
inline size_t rtcGetDeviceProperty(RTCDevice, RTCDeviceProperty) { return 3; }
inline void rtcSetDeviceErrorFunction(RTCDevice, void (*)(void *, RTCError, const char *), void *) { }
inline RTCScene rtcNewScene(RTCDevice) { return new mc_rtc_scene; }
inline void rtcReleaseScene(RTCScene s) { delete s; }
inline void rtcSetSceneFlags(RTCScene, RTCSceneFlags) { }
inline void rtcSetSceneBuildQuality(RTCScene, RTCBuildQuality) { }
inline void rtcCommitScene(RTCScene) { }
inline RTCGeometry rtcNewGeometry(RTCDevice, RTCGeometryType) { return new mc_rtc_geom; }
inline void rtcSetGeometryMask(RTCGeometry, unsigned) { }
inline void rtcSetGeometryBuildQuality(RTCGeometry, RTCBuildQuality) { }
inline void rtcSetGeometryTimeStepCount(RTCGeometry, unsigned) { }
inline unsigned rtcAttachGeometry(RTCScene s, RTCGeometry g)
{
    s->geoms.push_back(g);
    return s->geoms.size() - 1;
}
inline void rtcReleaseGeometry(RTCGeometry) { }
inline void rtcCommitGeometry(RTCGeometry) { }
inline RTCGeometry rtcGetGeometry(RTCScene s, unsigned id) { return s->geoms.at(id); }
inline void *rtcSetNewGeometryBuffer(RTCGeometry g, RTCBufferType t, unsigned, RTCFormat, size_t stride, size_t n)
{
    auto &b = t == RTC_BUFFER_TYPE_VERTEX ? g->vbuf : g->ibuf;
    b.assign(stride * n + 16, 0);
    if (t == RTC_BUFFER_TYPE_VERTEX) {
        g->vstride = stride;
        g->nverts = n;
    } else {
        g->istride = stride;
        g->ntris = n;
    }
    return b.data();
}
inline void rtcSetGeometryIntersectFilterFunction(RTCGeometry g, RTCFilterFunctionN f) { g->intersect = f; }
inline void rtcSetGeometryOccludedFilterFunction(RTCGeometry g, RTCFilterFunctionN f) { g->occluded = f; }

inline bool mc_rtc_hit(const mc_rtc_geom *g, size_t prim, const RTCRay &r, double &t, double &u, double &v, double ng[3])
{
    const unsigned *idx = reinterpret_cast<const unsigned *>(g->ibuf.data() + g->istride * prim);
    const float *p[3];
    for (int i = 0; i < 3; i++)
        p[i] = reinterpret_cast<const float *>(g->vbuf.data() + g->vstride * idx[i]);
    double e1[3], e2[3], s[3], d[3] = {r.dir_x, r.dir_y, r.dir_z}, o[3] = {r.org_x, r.org_y, r.org_z};
    for (int i = 0; i < 3; i++) {
        e1[i] = (double)p[1][i] - p[0][i];
        e2[i] = (double)p[2][i] - p[0][i];
        s[i] = o[i] - p[0][i];
    }
    auto cross = [](const double *a, const double *b, double *c) {
        c[0] = a[1] * b[2] - a[2] * b[1];
        c[1] = a[2] * b[0] - a[0] * b[2];
        c[2] = a[0] * b[1] - a[1] * b[0];
    };
    auto dot = [](const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
    double h[3], q[3];
    cross(d, e2, h);
    double a = dot(e1, h);
    if (a == 0)
        return false;
    double f = 1.0 / a;
    u = f * dot(s, h);
    if (u < 0 || u > 1)
        return false;
    cross(s, e1, q);
    v = f * dot(d, q);
    if (v < 0 || u + v > 1)
        return false;
    t = f * dot(e2, q);
    cross(e1, e2, ng);
    return true;
}

inline bool mc_rtc_trace(RTCScene s, RTCIntersectContext *ctx, RTCRay &ray, RTCHit *out, bool occlusion)
{
    struct cand
    {
        double t, u, v, ng[3];
        unsigned geom, prim;
    };
    std::vector<cand> c;
    for (unsigned gi = 0; gi < s->geoms.size(); gi++)
        for (unsigned pi = 0; pi < s->geoms[gi]->ntris; pi++) {
            cand k;
            if (mc_rtc_hit(s->geoms[gi], pi, ray, k.t, k.u, k.v, k.ng) && k.t >= ray.tnear && k.t <= ray.tfar) {
                k.geom = gi;
                k.prim = pi;
                c.push_back(k);
            }
        }
    std::stable_sort(c.begin(), c.end(), [](const cand &a, const cand &b) { return a.t < b.t; });
    const float tfar = ray.tfar;
    for (auto &k : c) {
        RTCHit hit{};
        hit.Ng_x = k.ng[0], hit.Ng_y = k.ng[1], hit.Ng_z = k.ng[2];
        hit.u = k.u, hit.v = k.v;
        hit.primID = k.prim, hit.geomID = k.geom;
        hit.instID[0] = RTC_INVALID_GEOMETRY_ID;
        int valid = -1;
        ray.tfar = k.t;
        RTCFilterFunctionNArguments args{&valid, nullptr, ctx, (RTCRayN *)&ray, (RTCHitN *)&hit, 1};
        auto *gf = occlusion ? s->geoms[k.geom]->occluded : s->geoms[k.geom]->intersect;
        if (gf)
            gf(&args);
        if (valid && ctx && ctx->filter)
            ctx->filter(&args);
        if (!valid) {
            ray.tfar = tfar;
            continue;
        }
        if (occlusion)
            ray.tfar = -std::numeric_limits<float>::infinity();
        else if (out)
            *out = hit;
        return true;
    }
    ray.tfar = tfar;
    return false;
}
inline void rtcIntersect1(RTCScene s, RTCIntersectContext *ctx, RTCRayHit *r) { mc_rtc_trace(s, ctx, r->ray, &r->hit, false); }
inline void rtcOccluded1(RTCScene s, RTCIntersectContext *ctx, RTCRay *r) { mc_rtc_trace(s, ctx, *r, nullptr, true); }
inline void rtcIntersect1M(RTCScene s, RTCIntersectContext *ctx, RTCRayHit *r, unsigned n, size_t stride)
{
    for (unsigned i = 0; i < n; i++)
        rtcIntersect1(s, ctx, reinterpret_cast<RTCRayHit *>(reinterpret_cast<char *>(r) + stride * i));
}
inline void rtcOccluded1M(RTCScene s, RTCIntersectContext *ctx, RTCRay *r, unsigned n, size_t stride)
{
    for (unsigned i = 0; i < n; i++)
        rtcOccluded1(s, ctx, reinterpret_cast<RTCRay *>(reinterpret_cast<char *>(r) + stride * i));
}
