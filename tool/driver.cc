// Instantiates every public template of the library so that the exporter sees
// the bodies. Never compiled to code and never run.
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "tools/matrix_sequence.h"
#include "tools/output_stream.h"
#include "tools/utilities.h"
namespace vdriver {
using namespace fbstab;
struct RecordingStream : public OutputStream<RecordingStream> {
  void PrintImplementation(const char* m) const;  // unknown: what it is given is what is printed
};
template <class S, class P, class X>
void one(S& s, const P& p, X* x) {
  RecordingStream os;
  s.Solve(p, x, os);
  s.Solve(p, x);
}
void dense(FBstabDense& s, const FBstabDense::ProblemData& p,
           const FBstabDense::ProblemDataRef& pr, FBstabDense::Variable* x,
           FBstabDense::VariableRef* xr) {
  one(s, p, x);
  one(s, p, xr);
  one(s, pr, x);
  one(s, pr, xr);
}
void mpc(FBstabMpc& s, const FBstabMpc::ProblemData& p,
         FBstabMpc::ProblemDataRef& pr, FBstabMpc::Variable* x,
         FBstabMpc::VariableRef* xr, const Eigen::VectorXd& v,
         const Eigen::Map<Eigen::VectorXd>& m) {
  pr.SetX0(v);
  pr.SetX0(m);
  one(s, p, x);
  one(s, p, xr);
  one(s, pr, x);
  one(s, pr, xr);
}

// Programs of a user, analysed with arbitrary inputs.
using Eigen::MatrixXd;
using Eigen::VectorXd;
// reading and writing one stage
void seq_read(const MatrixSequence& s, int k, MatrixXd* o) { *o = s(k); }
void seq_read_mutable(MatrixSequence& s, int k, MatrixXd* o) { *o = s(k); }
void map_read(const MapMatrixSequence& s, int k, MatrixXd* o) { *o = s(k); }
void seq_write(MatrixSequence& s, int k, const MatrixXd& w) { s(k) = w; }
void map_of_memory(const double* p, int len, int r, int c, int k, MatrixXd* o) {
  MapMatrixSequence m(p, len, r, c);
  *o = m(k);
}
void map_of_seq(const MatrixSequence& s, int k, MatrixXd* o) {
  MapMatrixSequence m(s);
  *o = m(k);
}
// a map refers to the memory it was made from
void map_then_write(MatrixSequence& s, int k, const MatrixXd& w, MatrixXd* o) {
  MapMatrixSequence m(s);
  s(k) = w;
  *o = m(k);
}
void map_copy_then_write(MatrixSequence& s, int k, const MatrixXd& w,
                         MatrixXd* o) {
  MapMatrixSequence m(s);
  MapMatrixSequence m2(m);
  s(k) = w;
  *o = m2(k);
}
void map_assign_then_write(MatrixSequence& s, int k, const MatrixXd& w,
                           MatrixXd* o) {
  MapMatrixSequence m(s);
  MapMatrixSequence m2;
  m2 = m;
  s(k) = w;
  *o = m2(k);
}
// copies own their memory
void copy_then_write_source(MatrixSequence& s, int k, const MatrixXd& w,
                            MatrixXd* o, MatrixXd* o2) {
  MatrixSequence t(s);
  s(k) = w;
  *o = t(k);
  *o2 = s(k);
}
void copy_then_write_copy(MatrixSequence& s, int k, const MatrixXd& w,
                          MatrixXd* o, MatrixXd* o2) {
  MatrixSequence t(s);
  t(k) = w;
  *o = s(k);
  *o2 = t(k);
}
void assign_then_write_source(MatrixSequence& s, int k, const MatrixXd& w,
                              MatrixXd* o, MatrixXd* o2) {
  MatrixSequence t;
  t = s;
  s(k) = w;
  *o = t(k);
  *o2 = s(k);
}
void assign_then_write_copy(MatrixSequence& s, int k, const MatrixXd& w,
                            MatrixXd* o, MatrixXd* o2) {
  MatrixSequence t(1, 1, 1);
  t = s;
  t(k) = w;
  *o = s(k);
  *o2 = t(k);
}
void data_copy_then_write(FBstabMpc::ProblemData& p, int k, const MatrixXd& w,
                          MatrixXd* o, MatrixXd* o2) {
  FBstabMpc::ProblemData t(p);
  t.Q(k) = w;
  *o = p.Q(k);
  *o2 = t.Q(k);
}
void seq_sizes(const MatrixSequence& s, int* o) {
  o[0] = s.length();
  o[1] = s.rows();
  o[2] = s.cols();
  o[3] = s.size();
}
void map_sizes(const MapMatrixSequence& s, int* o) {
  o[0] = s.length();
  o[1] = s.rows();
  o[2] = s.cols();
  o[3] = s.size();
}
void map_sizes_of_seq(const MatrixSequence& s, int* o) {
  MapMatrixSequence m(s);
  map_sizes(m, o);
}
void copy_sizes(const MatrixSequence& s, int* o) {
  MatrixSequence t(s);
  seq_sizes(t, o);
}
void map_sizes_of_memory(const double* p, int len, int r, int c, int* o) {
  MapMatrixSequence m(p, len, r, c);
  map_sizes(m, o);
}
const double* seq_data(const MatrixSequence& s) { return s.data(); }
double* seq_data_mutable(MatrixSequence& s) { return s.data(); }
const double* map_data(const MapMatrixSequence& s) { return s.data(); }
void set_x0(FBstabMpc::ProblemDataRef& r, const VectorXd& v, VectorXd* o) {
  r.SetX0(v);
  *o = r.x0;
}
// and to the memory of the vector it was given
void set_x0_then_write(FBstabMpc::ProblemDataRef& r, VectorXd& v, VectorXd* o) {
  r.SetX0(v);
  v *= 2.0;
  *o = r.x0;
}
void fill_dense(FBstabDense::VariableRef& x, double a) { x.fill(a); }
void fill_mpc(FBstabMpc::VariableRef& x, double a) { x.fill(a); }
}  // namespace vdriver
