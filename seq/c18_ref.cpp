// Reference extension for C18: calls the C++ library directly (no code of src/python), numpy in / numpy out.
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
namespace py = pybind11;
using namespace small_gicp;
using RM = Eigen::Matrix<double, -1, -1, Eigen::RowMajor>;
using V4s = std::vector<Eigen::Vector4d>;
using M4s = std::vector<Eigen::Matrix4d>;

static V4s v4(const RM& p) { V4s v(p.rows()); for (long i = 0; i < p.rows(); i++) v[i] << p(i, 0), p(i, 1), p(i, 2), 1.0; return v; }
static RM m4(const V4s& v) { RM m(v.size(), 4); for (size_t i = 0; i < v.size(); i++) m.row(i) = v[i].transpose(); return m; }
static std::shared_ptr<PointCloud> cloud(const RM& p) {
  auto c = std::make_shared<PointCloud>();
  c->resize(p.rows());
  for (long i = 0; i < p.rows(); i++) { c->point(i) << p(i, 0), p(i, 1), p(i, 2), 1.0; c->normal(i).setZero(); c->cov(i).setZero(); }
  return c;
}
static void covm(py::list& l, const PointCloud& c) { for (size_t i = 0; i < c.size(); i++) l.append(Eigen::Matrix4d(c.cov(i))); }
struct Cloud {
  std::shared_ptr<PointCloud> c;
};
template <typename Map>
void defmap(py::module& m, const char* name) {
  py::class_<Map>(m, name, py::module_local()).def(py::init<double>())
    .def("insert", [](Map& v, const Cloud& c, const Eigen::Matrix4d& T) { v.insert(*c.c, Eigen::Isometry3d(T)); })
    .def("set_lru", [](Map& v, size_t h, size_t c) { v.lru_horizon = h; v.lru_clear_cycle = c; })
    .def("size", [](const Map& v) { return v.flat_voxels.size(); })
    .def("points", [](const Map& v) { V4s o; for (auto& x : v.flat_voxels) for (size_t i = 0; i < traits::Traits<std::decay_t<decltype(x->second)>>::size(x->second); i++) o.push_back(traits::point(x->second, i)); return m4(o); })
    .def("normals", [](const Map& v) { V4s o; if constexpr (!std::is_same_v<Map, GaussianVoxelMap>) { for (auto& x : v.flat_voxels) for (size_t i = 0; i < x->second.size(); i++) { if constexpr (std::is_same_v<Map, IncrementalVoxelMap<FlatContainerNormal>> || std::is_same_v<Map, IncrementalVoxelMap<FlatContainerNormalCov>>) o.push_back(traits::normal(x->second, i)); } } return m4(o); })
    .def("covs", [](const Map& v) { py::list o; if constexpr (std::is_same_v<Map, IncrementalVoxelMap<FlatContainerCov>> || std::is_same_v<Map, IncrementalVoxelMap<FlatContainerNormalCov>> || std::is_same_v<Map, GaussianVoxelMap>) for (auto& x : v.flat_voxels) for (size_t i = 0; i < traits::Traits<std::decay_t<decltype(x->second)>>::size(x->second); i++) o.append(Eigen::Matrix4d(traits::cov(x->second, i))); return o; });
}
template <typename F>
py::tuple lin(const Cloud& t, const Cloud& s, const Eigen::Matrix4d& T, size_t i, double maxd) {
  KdTree<PointCloud> tree(t.c);
  F f;
  DistanceRejector rej;
  if (maxd >= 0) rej.max_dist_sq = maxd * maxd;
  Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero(); Eigen::Matrix<double, 6, 1> b = Eigen::Matrix<double, 6, 1>::Zero(); double e = 0;
  bool ok = f.linearize(*t.c, *s.c, tree, Eigen::Isometry3d(T), i, rej, &H, &b, &e);
  return py::make_tuple(ok, H, b, e);
}
static py::tuple res(const RegistrationResult& r) { return py::make_tuple(Eigen::Matrix4d(r.T_target_source.matrix()), r.converged, r.iterations, r.num_inliers, r.H, r.b, r.error); }
static RegistrationSetting setting(int type, double vres, double ds, double maxd, int nt, int it, double re, double te) {
  RegistrationSetting s;
  s.type = type == 0 ? RegistrationSetting::ICP : type == 1 ? RegistrationSetting::PLANE_ICP : type == 2 ? RegistrationSetting::GICP : RegistrationSetting::VGICP;
  s.voxel_resolution = vres; s.downsampling_resolution = ds; s.max_correspondence_distance = maxd; s.num_threads = nt; s.max_iterations = it; s.rotation_eps = re; s.translation_eps = te;
  return s;
}
PYBIND11_MODULE(sgref, m) {
  py::class_<Cloud>(m, "Cloud", py::module_local())
    .def(py::init([](const RM& p) { return Cloud{cloud(p)}; }))
    .def("downsample", [](const Cloud& c, double r) { return Cloud{voxelgrid_sampling(*c.c, r)}; })
    .def("estimate", [](Cloud& c, int which, int k) { if (which == 0) estimate_normals(*c.c, k); else if (which == 1) estimate_covariances(*c.c, k); else estimate_normals_covariances(*c.c, k); })
    .def("points", [](const Cloud& c) { return m4(c.c->points); })
    .def("normals", [](const Cloud& c) { return m4(c.c->normals); })
    .def("covs", [](const Cloud& c) { py::list l; covm(l, *c.c); return l; })
    .def("set", [](Cloud& c, size_t i, const Eigen::Vector4d& n, const Eigen::Matrix4d& C) { c.c->normal(i) = n; c.c->cov(i) = C; });
  defmap<IncrementalVoxelMap<FlatContainerPoints>>(m, "IncrementalVoxelMap");
  defmap<IncrementalVoxelMap<FlatContainerNormal>>(m, "IncrementalVoxelMapNormal");
  defmap<IncrementalVoxelMap<FlatContainerCov>>(m, "IncrementalVoxelMapCov");
  defmap<IncrementalVoxelMap<FlatContainerNormalCov>>(m, "IncrementalVoxelMapNormalCov");
  defmap<GaussianVoxelMap>(m, "GaussianVoxelMap");
  m.def("lin0", &lin<ICPFactor>); m.def("lin1", &lin<PointToPlaneICPFactor>); m.def("lin2", &lin<GICPFactor>);
  m.def("align_raw", [](const RM& t, const RM& s, const Eigen::Matrix4d& T, int type, double vres, double ds, double maxd, int it, double re, double te) {
    return res(align(v4(t), v4(s), Eigen::Isometry3d(T), setting(type, vres, ds, maxd, 1, it, re, te)));
  });
  m.def("align_pre", [](const Cloud& t, const Cloud& s, const Eigen::Matrix4d& T, int type, double maxd, int it, double re, double te) {
    KdTree<PointCloud> tree(t.c);
    return res(align(*t.c, *s.c, tree, Eigen::Isometry3d(T), setting(type, 1.0, 0.25, maxd, 1, it, re, te)));
  });
  m.def("align_vox", [](const GaussianVoxelMap& t, const Cloud& s, const Eigen::Matrix4d& T, double maxd, int it, double re, double te) {
    return res(align(t, *s.c, Eigen::Isometry3d(T), setting(3, 1.0, 0.25, maxd, 1, it, re, te)));
  });
}
