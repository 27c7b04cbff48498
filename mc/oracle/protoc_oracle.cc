// protoc_oracle answers, for sets of in-memory proto files, what protoc's own
// front end (libprotoc: tokenizer, parser, importer, descriptor pool) makes of
// them. One request is
//     <nfiles> <name of the root file>\n
//     (<name> <length>\n<bytes>)*
// and one answer
//     <kind> <length>\n<bytes>
// with kind O (accepted; the bytes are a FileDescriptorSet, dependencies
// first), S (a file does not parse) or E (parses, but is refused).
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <google/protobuf/compiler/importer.h>
#include <google/protobuf/compiler/parser.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/io/tokenizer.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/stubs/logging.h>
using namespace google::protobuf;
namespace {
std::map<std::string, std::string> files;
struct Tree : compiler::SourceTree {
  io::ZeroCopyInputStream* Open(const std::string& name) override {
    auto it = files.find(name);
    if (it == files.end()) {  // the well-known ones
      if (name.compare(0, 16, "google/protobuf/") != 0 || name.find("..") != std::string::npos) return nullptr;
      FILE* f = fopen(("/usr/include/" + name).c_str(), "rb");
      if (!f) return nullptr;
      std::string b;
      char buf[8192];
      for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;) b.append(buf, n);
      fclose(f);
      it = files.emplace(name, b).first;
    }
    return new io::ArrayInputStream(it->second.data(), it->second.size());
  }
};
std::string text;
struct Multi : compiler::MultiFileErrorCollector {
  void AddError(const std::string& f, int line, int col, const std::string& m) override {
    text += f + ":" + std::to_string(line + 1) + ":" + std::to_string(col + 1) + ": " + m + "\n";
  }
};
struct Single : io::ErrorCollector {
  bool bad = false;
  void AddError(int line, int col, const std::string& m) override {
    bad = true;
    text += std::to_string(line + 1) + ":" + std::to_string(col + 1) + ": " + m + "\n";
  }
};
void add(const FileDescriptor* f, std::set<const FileDescriptor*>* seen, FileDescriptorSet* out) {
  if (!seen->insert(f).second) return;
  for (int i = 0; i < f->dependency_count(); i++) add(f->dependency(i), seen, out);
  FileDescriptorProto* p = out->add_file();
  f->CopyTo(p);
  f->CopyJsonNameTo(p);
}
void answer(char kind, const std::string& s) {
  printf("%c %zu\n", kind, s.size());
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}
}  // namespace
int main() {
  SetLogHandler(nullptr);
  int n;
  char name[4096];
  while (scanf("%d %4095s", &n, name) == 2) {
    getchar();
    std::string root = name;
    files.clear();
    text.clear();
    for (int i = 0; i < n; i++) {
      size_t len;
      if (scanf("%4095s %zu", name, &len) != 2) return 1;
      getchar();
      std::string b(len, 0);
      if (len && fread(&b[0], 1, len, stdin) != len) return 1;
      files[name] = b;
    }
    bool bad = false;
    for (auto& f : files) {
      io::ArrayInputStream in(f.second.data(), f.second.size());
      Single e;
      io::Tokenizer tok(&in, &e);
      compiler::Parser p;
      p.RecordErrorsTo(&e);
      FileDescriptorProto fd;
      if (!p.Parse(&tok, &fd) || e.bad) bad = true;
    }
    if (bad) {
      answer('S', text);
      continue;
    }
    text.clear();
    Tree tree;
    Multi m;
    compiler::Importer imp(&tree, &m);
    const FileDescriptor* f = imp.Import(root);
    if (f == nullptr || !text.empty()) {
      answer('E', text.empty() ? "refused" : text);
      continue;
    }
    FileDescriptorSet set;
    std::set<const FileDescriptor*> seen;
    add(f, &seen, &set);
    answer('O', set.SerializeAsString());
  }
}
