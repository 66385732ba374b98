//: tools: the printing classes used on their own
#include "tools/output_stream.h"
#include "stream.h"
template <class S> void show(const fbstab::OutputStream<S>& s) { s.Print("x"); }
void go() {
  fbstab::StandardOutput o;
  const fbstab::StandardOutput c = o;
  const Recorder r;
  const HiddenRecorder h;
  show(o);
  show(c);
  show(r);
  show(h);
  o.Print("y");
}
