// A user's printing class, written from the documentation of OutputStream.
#pragma once
#include <string>
struct Recorder : public fbstab::OutputStream<Recorder> {
  mutable std::string text;
  void PrintImplementation(const char* m) const { text += m; }
};
class HiddenRecorder : public fbstab::OutputStream<HiddenRecorder> {
  void PrintImplementation(const char*) const {}
  friend class fbstab::OutputStream<HiddenRecorder>;
};
