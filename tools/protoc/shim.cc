#include <google/protobuf/compiler/parser.h>
#include <google/protobuf/io/tokenizer.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/descriptor.h>
#include <cstring>
using namespace google::protobuf;
struct EC : io::ErrorCollector { std::string s; bool err=false; void AddError(int l,int c,const std::string&m) override { err=true; s+=std::to_string(l)+":"+std::to_string(c)+": "+m+"\n"; } };
extern "C" int pc_parse(const char* d, size_t n, char** out, size_t* on) {
  io::ArrayInputStream in(d,(int)n); EC ec; io::Tokenizer t(&in,&ec); compiler::Parser p; p.RecordErrorsTo(&ec);
  FileDescriptorProto f; bool ok=p.Parse(&t,&f) && !ec.err; 
  std::string o = ok ? f.SerializePartialAsString() : ec.s;
  *out=(char*)malloc(o.size()+1); memcpy(*out,o.data(),o.size()); *on=o.size(); return ok;
}
