// Driver of the framework for the conformance checks.  It reads commands
// from stdin and writes one JSON object per line; it judges nothing.  The
// observations are checked against the TLA+ specification by TLC.
#include "TestingFramework/tfRegressionTest.h"
#include "TestingFramework/tfMeasurement.h"
#include "TestingFramework/tfMeasurementVisitor.h"
#include "TestingFramework/tfBase64.h"
#include "TestingFramework/tfDiff.h"
#include "FileUtilities/PathName.h"
#include "FileUtilities/FileUtilities.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef WITH_ITK
#include "itktf/itktfRegression.h"
#include "itktf/itktfFilterWatcher.h"
#include "itkCommand.h"
#include "itkProcessObject.h"
#include "itkMultiThreaderBase.h"
#include "itkImage.h"
#include "itkImageRegionIterator.h"
#include "itkPoint.h"
#include "itkVector.h"
#ifdef WITH_COMPOSED
#include "itkVectorImage.h"
#include <complex>
#endif
#include "itkMatrix.h"
#include <limits>
typedef itk::Regression BaseTest;
#else
typedef testutil::RegressionTest BaseTest;
#endif

using namespace testutil;
typedef std::vector<std::string> Words;

static FILE *OUT;           // the answers; fd 1 is not used for them
static char fakeHost[65];   // set by "host"

// the host name is part of the environment of a recording
extern "C" int gethostname(char *name, size_t len) throw() {
  const char *h = fakeHost[0] ? fakeHost : "host.example";
  strncpy(name, h, len);
  if (len) name[len-1] = 0;
  return 0;
}

static std::string unhex(const std::string &w) {   // x616263 -> abc
  std::string r;
  for (size_t i = 1; i + 1 < w.size(); i += 2)
    r.push_back((char)strtol(w.substr(i, 2).c_str(), 0, 16));
  return r;
}
static std::string bytes(const void *p, size_t n) {
  std::string s = "[";
  const unsigned char *u = (const unsigned char *)p;
  char b[8];
  for (size_t i = 0; i < n; ++i) { snprintf(b, 8, i ? ",%d" : "%d", u[i]); s += b; }
  return s + "]";
}
static std::string bytes(const std::string &s) { return bytes(s.data(), s.size()); }
static std::string num(long long v) { char b[32]; snprintf(b, 32, "%lld", v); return b; }
static void answer(const std::string &s) { fprintf(OUT, "%s\n", s.c_str()); fflush(OUT); }

static Words split(const std::string &l) {
  std::istringstream is(l); Words w; std::string s;
  while (is >> s) w.push_back(s);
  return w;
}
static bool readBlock(std::vector<Words> &block) {   // until "end"
  std::string l;
  while (std::getline(std::cin, l)) {
    Words w = split(l);
    if (w.empty()) continue;
    if (w[0] == "end") return true;
    block.push_back(w);
  }
  return false;
}

// ---------------------------------------------------------------- runs

struct StdDerived : std::runtime_error { StdDerived() : std::runtime_error("derived") {} };
struct Foreign {};
struct NoWhat : std::exception {};

static void throwKind(const std::string &k) {
  if (k == "runtime_error") throw std::runtime_error("scripted");
  if (k == "logic_error") throw std::logic_error("scripted");
  if (k == "length_error") throw std::length_error("scripted");
  if (k == "domain_error") throw std::domain_error("scripted");
  if (k == "out_of_range") throw std::out_of_range("scripted");
  if (k == "invalid_argument") throw std::invalid_argument("scripted");
  if (k == "bad_alloc") throw std::bad_alloc();
  if (k == "bad_cast") throw std::bad_cast();
  if (k == "range_error") throw std::range_error("scripted");
  if (k == "overflow_error") throw std::overflow_error("scripted");
  if (k == "underflow_error") throw std::underflow_error("scripted");
  if (k == "exception") throw NoWhat();
  if (k == "bad_typeid") throw std::bad_typeid();
  if (k == "ios_failure") throw std::ios_base::failure("scripted");
  if (k == "derived") throw StdDerived();
  if (k == "int") throw 0;
  if (k == "cstring") throw "scripted";
  if (k == "string") throw std::string("scripted");
  if (k == "foreign") throw Foreign();
  if (k == "pointer") throw new std::runtime_error("scripted");
  throw 1;
}

class Scripted : public BaseTest {
public:
  std::vector<Words> ops;
  int log;
  std::string tag;                     // of the run, if there are several
  void (*sub)(const std::string &);    // another run in this one
  Scripted() : log(-1), sub(0) {}
  void say(const std::string &s) { std::string l = tag + s + "\n"; if (write(log, l.data(), l.size())) {} }
  long outSize(void) {
    struct stat s;
    if (this->GetOutFileName() != "") {
      this->GetOutStream().flush();
      if (!outAbs.empty() && !stat(outAbs.c_str(), &s)) return S_ISREG(s.st_mode) ? (long)s.st_size : 0;
      return -1;
    }
    std::cout.flush(); fflush(stdout);
    return fstat(1, &s) ? -1 : (long)s.st_size;
  }
  std::string outAbs;
  void settings(const std::vector<Words> &sets) {
    for (size_t i = 0; i < sets.size(); ++i) {
      const Words &w = sets[i];
      if (w[1] == "in") SetInFileName(unhex(w[2]));
      else if (w[1] == "out") SetOutFileName(unhex(w[2]));
      else if (w[1] == "exp") SetExpectedReturn(atoi(w[2].c_str()));
      else if (w[1] == "tol") SetRelativeTolerance(strtod(w[2].c_str(), 0));
      else if (w[1] == "pre") PrependInFileSearchPath(unhex(w[2]));
      else if (w[1] == "paths") { fileutil::PathList l; for (size_t k = 2; k < w.size(); ++k) l.push_back(unhex(w[k])); SetInFileSearchPath(l); }
    }
  }
protected:
#ifdef WITH_ITK
  // C name kind dimensions tolerance("d" the default) values
  typedef std::vector<std::string>::const_iterator Vals;
  static long integer(const std::string &v) { return strtol(v.c_str(), 0, 10); }
  static double real(const std::string &v) { return strtod(v.c_str(), 0); }
#define WITH(CALL, OBJ) (t < 0 ? CALL(OBJ, n) : CALL(OBJ, n, t != 0))
  template <unsigned int D> int integral(const std::string &k, const std::string &n, int t, Vals v) {
    itk::Index<D> i; itk::Size<D> z;
    if (k == "region") {
      for (unsigned int j = 0; j < D; ++j) { i[j] = integer(v[j]); z[j] = integer(v[D+j]); }
      itk::ImageRegion<D> r(i, z);
      return WITH(MeasurementInsightRegion, r);
    }
    for (unsigned int j = 0; j < D; ++j) { i[j] = integer(v[j]); z[j] = integer(v[j]); }
    if (k == "size") return WITH(MeasurementInsightSize, z);
    return WITH(MeasurementInsightIndex, i);
  }
  template <class T, unsigned int D> int reals(const std::string &k, const std::string &n, int t, Vals v) {
    itk::Point<T,D> p; itk::Vector<T,D> c; itk::FixedArray<T,D> a;
    for (unsigned int j = 0; j < D; ++j) p[j] = c[j] = a[j] = (T)real(v[j]);
    if (k == "point") return WITH(MeasurementInsightPoint, p);
    if (k == "vector") return WITH(MeasurementInsightVector, c);
    return WITH(MeasurementInsightFixedArray, a);
  }
  template <class T, unsigned int X, unsigned int Y> int matrix(const std::string &n, int t, Vals v) {
    itk::Matrix<T,X,Y> m;
    for (unsigned int i = 0; i < X; ++i) for (unsigned int j = 0; j < Y; ++j) m[i][j] = (T)real(v[i*Y+j]);
    return WITH(MeasurementInsightMatrix, m);
  }
  template <class T> int realKinds(const std::string &k, const std::string &d, const std::string &n, int t, Vals v) {
    if (k == "matrix") {
      if (d == "1x1") return matrix<T,1,1>(n, t, v);
      if (d == "2x2") return matrix<T,2,2>(n, t, v);
      if (d == "2x3") return matrix<T,2,3>(n, t, v);
      if (d == "3x2") return matrix<T,3,2>(n, t, v);
      if (d == "3x3") return matrix<T,3,3>(n, t, v);
      if (d == "1x4") return matrix<T,1,4>(n, t, v);
      if (d == "4x1") return matrix<T,4,1>(n, t, v);
      if (d == "4x4") return matrix<T,4,4>(n, t, v);
      if (d == "2x12") return matrix<T,2,12>(n, t, v);
      return -98;
    }
    switch (atoi(d.c_str())) {
      case 1: return reals<T,1>(k, n, t, v);
      case 2: return reals<T,2>(k, n, t, v);
      case 3: return reals<T,3>(k, n, t, v);
      case 4: return reals<T,4>(k, n, t, v);
      case 6: return reals<T,6>(k, n, t, v);
      case 12: return reals<T,12>(k, n, t, v);
    }
    return -98;
  }
  int composite(const std::string &n, const Words &w) {
    std::string k = w[2];
    int t = w[4] == "d" ? -1 : atoi(w[4].c_str());
    Vals v = w.begin() + 5;
    if (k == "size" || k == "index" || k == "region") switch (atoi(w[3].c_str())) {
      case 1: return integral<1>(k, n, t, v);
      case 2: return integral<2>(k, n, t, v);
      case 3: return integral<3>(k, n, t, v);
      case 4: return integral<4>(k, n, t, v);
      case 6: return integral<6>(k, n, t, v);
      case 11: return integral<11>(k, n, t, v);
    }
    if (k[0] == 'f') return realKinds<float>(k.substr(1), w[3], n, t, v);
    return realKinds<double>(k, w[3], n, t, v);
  }
  // II name x y values
  int image(const std::string &n, const Words &w) {
    typedef itk::Image<short,2> I;
    I::SizeType z; z[0] = integer(w[2]); z[1] = integer(w[3]);
    I::Pointer i = I::New(); i->SetRegions(I::RegionType(z)); i->Allocate();
    itk::ImageRegionIterator<I> it(i, i->GetLargestPossibleRegion());
    for (size_t j = 4; !it.IsAtEnd() && j < w.size(); ++it, ++j) it.Set((short)integer(w[j]));
    return MeasurementInsightImage<I>(i, n);
  }
#endif
  virtual int Test(int argc, char *argv[]) {
    char cwd[4096];
    outAbs = "";
    if (this->GetOutFileName() != "") {
      if (this->GetOutFileName()[0] == '/') outAbs = this->GetOutFileName();
      else if (getcwd(cwd, sizeof cwd)) outAbs = std::string(cwd) + "/" + this->GetOutFileName();
    }
    std::string s = "T {\"argc\":" + num(argc) + ",\"argv\":[";
    for (int i = 0; i < argc; ++i) s += (i ? "," : "") + bytes(argv[i]);
    say(s + "],\"cmp\":" + num(this->GetCompareMode()) + ",\"pos\":" + num(outSize()) + "}");
    for (size_t i = 0; i < ops.size(); ++i) {
      const Words &w = ops[i];
      const std::string &k = w[0];
      if (k == "throw") { say("X"); throwKind(w[1]); }
      if (k == "ret") { say("E " + w[1]); return atoi(w[1].c_str()); }
      if (k == "exit") { say("X"); _exit(atoi(w[1].c_str())); }
      if (k == "kill") { say("X"); kill(getpid(), atoi(w[1].c_str())); pause(); }
      if (k == "rm") { unlink(unhex(w[1]).c_str()); continue; }
      if (k == "put") { std::ofstream o(unhex(w[1]).c_str(), std::ios::binary); o << unhex(w[2]); continue; }
      if (k == "cd") { if (chdir(unhex(w[1]).c_str())) {} continue; }
      if (k == "tol") { this->SetRelativeTolerance(strtod(w[1].c_str(), 0)); continue; }
      if (k == "sub") { sub(w[1]); continue; }
      if (k == "exp") { this->SetExpectedReturn(atoi(w[1].c_str())); continue; }
#ifdef WITH_ITK
      if (k == "itol") { this->SetImageInsightTolerance(strtod(w[1].c_str(), 0), strtoul(w[2].c_str(), 0, 10), strtoul(w[3].c_str(), 0, 10)); continue; }
      if (k == "itol1") { this->SetImageInsightTolerance(strtod(w[1].c_str(), 0)); continue; }
      if (k == "ioff") { this->SetImageInsightToleranceOff(); continue; }
      if (k == "gen") { say("G {\"n\":" + bytes(w.size() > 2 ? this->GenerateFileName(unhex(w[1]), unhex(w[2])) : this->GenerateFileName(unhex(w[1]))) + "}"); continue; }
#endif
      std::string n = unhex(w[1]);
      int r = -99;
      int t = w.size() > 3 && w[3] != "d" ? atoi(w[3].c_str()) : -1;
      if (k == "I") { long v = strtol(w[2].c_str(), 0, 10); r = t < 0 ? MeasurementNumericInteger(v, n) : MeasurementNumericInteger(v, n, t != 0); }
      else if (k == "F") { float v = strtof(w[2].c_str(), 0); r = t < 0 ? MeasurementNumericFloat(v, n) : MeasurementNumericFloat(v, n, t != 0); }
      else if (k == "D") { double v = strtod(w[2].c_str(), 0); r = t < 0 ? MeasurementNumericDouble(v, n) : MeasurementNumericDouble(v, n, t != 0); }
      else if (k == "B") { bool v = w[2] != "0"; r = t < 0 ? MeasurementNumericBoolean(v, n) : MeasurementNumericBoolean(v, n, t != 0); }
      else if (k == "S") r = MeasurementTextString(unhex(w[2]), n);
      else if (k == "many") { for (long j = strtol(w[4].c_str(), 0, 10); j > 0; --j) r = MeasurementTextString(unhex(w[3]), n); }
      else if (k == "P") r = MeasurementTextPlain(unhex(w[2]), n);
      else if (k == "FT") r = MeasurementFileTextPlain(unhex(w[2]), n);
      else if (k == "FG") r = MeasurementFileImagePNG(unhex(w[2]), n);
      else if (k == "FJ") r = MeasurementFileImageJPEG(unhex(w[2]), n);
#ifdef WITH_ITK
      else if (k == "FI") r = MeasurementInsightFileImage(unhex(w[2]), n);
      else if (k == "C") r = composite(n, w);
      else if (k == "II") r = image(n, w);
#endif
      say("M {\"r\":" + num(r) + ",\"pos\":" + num(outSize()) + ",\"cmp\":" + num(this->GetCompareMode()) + "}");
    }
    say("E 0");
    return 0;
  }
};

// one run in a process of its own
static int hung = 0;
static void doRun(const std::string &id) {
  std::vector<Words> b;
  readBlock(b);
  std::string dir = ".", user;
  Words args;
  std::vector<Words> ops, sets;
  long limit = -1, timeout = 10;
  for (size_t i = 0; i < b.size(); ++i) {
    const Words &w = b[i];
    if (w[0] == "dir") dir = unhex(w[1]);
    else if (w[0] == "arg") args.push_back(unhex(w[1]));
    else if (w[0] == "set") sets.push_back(w);
    else if (w[0] == "limit") limit = atol(w[1].c_str());
    else if (w[0] == "timeout") timeout = atol(w[1].c_str());
    else if (w[0] == "as") user = w[1];
    else if (w[0] == "host") { std::string h = unhex(w[1]); strncpy(fakeHost, h.c_str(), 64); }
    else if (w[0] == "op") ops.push_back(Words(w.begin()+1, w.end()));
  }
  char logName[64];
  snprintf(logName, 64, "/tmp/tfdrv.%d.log", (int)getpid());
  int log = open(logName, O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0600);
  unlink(logName);
  fflush(OUT);
  pid_t p = fork();
  if (!p) {
    if (chdir(dir.c_str())) _exit(111);
    int o = open(".stdout", O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0666), e = open(".stderr", O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0666);
    dup2(o, 1); dup2(e, 2);
    int n = open("/dev/null", O_RDONLY); dup2(n, 0);
    if (user == "nobody" && (setgroups(0, 0) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))) _exit(112);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (limit >= 0) { signal(SIGXFSZ, SIG_IGN); }
    // what never ends is not to fill the disk or the memory
    if (limit < 0) { rl.rlim_cur = rl.rlim_max = 256 << 20; setrlimit(RLIMIT_FSIZE, &rl); }
    rl.rlim_cur = rl.rlim_max = 8l << 30; setrlimit(RLIMIT_AS, &rl);
    // nor many of them to take for ever
    alarm(hung < 3 ? timeout : 3);
    int r;
    {
      Scripted t;
      t.log = limit < 0 ? log : -1;      // there would be no room for it
      t.ops = ops;
      t.settings(sets);
      std::vector<char*> av;
      for (size_t i = 0; i < args.size(); ++i) av.push_back(strdup(args[i].c_str()));
      av.push_back(0);
      if (limit >= 0) { rl.rlim_cur = rl.rlim_max = limit; setrlimit(RLIMIT_FSIZE, &rl); }
      r = t.Main((int)args.size(), av.data());
      if (limit < 0) t.say("R {\"v\":" + num(r) + ",\"exp\":" + num(t.GetExpectedReturn()) +
            ",\"in\":" + bytes(t.GetInFileName()) + ",\"out\":" + bytes(t.GetOutFileName()) + "}");
    }
    std::cout.flush(); fflush(stdout);
    // the log has no room under a limit: 200 success, 201 not
    _exit(limit < 0 ? 0 : r == 0 ? 200 : 201);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hung;
  std::string s, line, tests = "null", res = "null", ms, gs;
  char buf[65536]; ssize_t k; lseek(log, 0, SEEK_SET);
  while ((k = read(log, buf, sizeof buf)) > 0) s.append(buf, k);
  close(log);
  std::istringstream is(s);
  std::string ret = "null", scripted = "false"; int nt = 0;
  while (std::getline(is, line)) {
    if (line[0] == 'T') { tests = line.substr(2); ++nt; }
    else if (line[0] == 'M') ms += (ms.empty() ? "" : ",") + line.substr(2);
    else if (line[0] == 'G') gs += (gs.empty() ? "" : ",") + line.substr(2);
    else if (line[0] == 'E') ret = line.substr(2);
    else if (line[0] == 'X') scripted = "true";
    else if (line[0] == 'R') res = line.substr(2);
  }
  answer("{\"id\":" + id + ",\"test\":" + tests + ",\"ntest\":" + num(nt) + ",\"gs\":[" + gs + "],\"ms\":[" + ms + "],\"ret\":" + ret + ",\"ended\":" + scripted +
    ",\"res\":" + res + ",\"sig\":" + num(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ",\"code\":" + num(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + "}");
}

// several runs of several objects in one process
struct OneRun { std::string obj; bool nested; Words args, outs; std::vector<Words> ops, sets; };
static std::vector<OneRun> theRuns;
static std::map<std::string, Scripted*> theObjects;
static int theLog;
static void oneRun(const std::string &j) {
  const OneRun &r = theRuns[atoi(j.c_str())];
  Scripted *&t = theObjects[r.obj];
  if (!t) t = new Scripted;
  t->log = theLog; t->ops = r.ops; t->tag = j + " "; t->sub = oneRun;
  t->settings(r.sets);
  std::vector<char*> av;
  for (size_t i = 0; i < r.args.size(); ++i) av.push_back(strdup(r.args[i].c_str()));
  av.push_back(0);
  struct stat b, e;
  std::cout.flush(); fflush(stdout); fstat(1, &b);
  int v = t->Main((int)r.args.size(), av.data());
  std::cout.flush(); fflush(stdout); fstat(1, &e);
  t->say("R {\"v\":" + num(v) + ",\"exp\":" + num(t->GetExpectedReturn()) + ",\"in\":" + bytes(t->GetInFileName()) + ",\"out\":" + bytes(t->GetOutFileName()) + "}");
  std::string part(e.st_size - b.st_size, 0);
  int o = open(".stdout", O_RDONLY);
  if (pread(o, &part[0], part.size(), b.st_size) < 0) part = "";
  close(o);
  t->say("O {\"n\":[],\"there\":1,\"c\":" + bytes(part) + "}");
  for (size_t i = 0; i < r.outs.size(); ++i) {
    struct stat q;
    bool there = !stat(r.outs[i].c_str(), &q) && S_ISREG(q.st_mode);
    std::ifstream f(r.outs[i].c_str(), std::ios::binary);
    std::ostringstream c;
    if (there && q.st_size) c << f.rdbuf();
    t->say("O {\"n\":" + bytes(r.outs[i]) + ",\"there\":" + num(there) + ",\"c\":" + bytes(c.str()) + "}");
  }
}
static void doSession(const std::string &id) {
  std::vector<Words> b;
  readBlock(b);
  std::string dir = ".";
  theRuns.clear();
  long timeout = 10, files = 0;
  for (size_t i = 0; i < b.size(); ++i) {
    const Words &w = b[i];
    if (w[0] == "dir") dir = unhex(w[1]);
    else if (w[0] == "timeout") timeout = atol(w[1].c_str());
    else if (w[0] == "files") files = atol(w[1].c_str());
    else if (w[0] == "of") { OneRun r; r.obj = w[1]; r.nested = w[2] == "1"; theRuns.push_back(r); }
    else if (w[0] == "arg") theRuns.back().args.push_back(unhex(w[1]));
    else if (w[0] == "out") theRuns.back().outs.push_back(unhex(w[1]));
    else if (w[0] == "set") theRuns.back().sets.push_back(w);
    else if (w[0] == "op") theRuns.back().ops.push_back(Words(w.begin()+1, w.end()));
  }
  char logName[64];
  snprintf(logName, 64, "/tmp/tfdrv.%d.log", (int)getpid());
  theLog = open(logName, O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0600);
  unlink(logName);
  fflush(OUT);
  pid_t p = fork();
  if (!p) {
    if (chdir(dir.c_str())) _exit(111);
    int o = open(".stdout", O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0666), e = open(".stderr", O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0666);
    dup2(o, 1); dup2(e, 2);
    int n = open("/dev/null", O_RDONLY); dup2(n, 0);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 256 << 20; setrlimit(RLIMIT_FSIZE, &rl);
    if (files) { rl.rlim_cur = rl.rlim_max = files; setrlimit(RLIMIT_NOFILE, &rl); }
    alarm(hung < 3 ? timeout : 3);
    for (size_t i = 0; i < theRuns.size(); ++i) if (!theRuns[i].nested) oneRun(num(i));
    for (std::map<std::string, Scripted*>::iterator i = theObjects.begin(); i != theObjects.end(); ++i) delete i->second;
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hung;
  std::string s, line;
  char buf[65536]; ssize_t k; lseek(theLog, 0, SEEK_SET);
  while ((k = read(theLog, buf, sizeof buf)) > 0) s.append(buf, k);
  close(theLog);
  std::istringstream is(s);
  std::vector<std::string> T(theRuns.size(), "null"), R = T, M(theRuns.size()), G = M, O = M;
  std::vector<int> nt(theRuns.size());
  while (std::getline(is, line)) {
    size_t sp = line.find(' ');
    size_t j = atoi(line.c_str());
    std::string what = line.substr(sp + 1), v = what.size() > 2 ? what.substr(2) : "";
    if (what[0] == 'T') { T[j] = v; ++nt[j]; }
    else if (what[0] == 'M') M[j] += (M[j].empty() ? "" : ",") + v;
    else if (what[0] == 'G') G[j] += (G[j].empty() ? "" : ",") + v;
    else if (what[0] == 'O') O[j] += (O[j].empty() ? "" : ",") + v;
    else if (what[0] == 'R') R[j] = v;
  }
  std::string all;
  for (size_t j = 0; j < theRuns.size(); ++j)
    all += std::string(j ? "," : "") + "{\"test\":" + T[j] + ",\"ntest\":" + num(nt[j]) + ",\"gs\":[" + G[j] + "],\"ms\":[" + M[j] + "],\"outs\":[" + O[j] + "],\"res\":" + R[j] + "}";
  answer("{\"id\":" + id + ",\"runs\":[" + all + "],\"sig\":" + num(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ",\"code\":" + num(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + "}");
}

// ------------------------------------- a test with visitors of its own

class Extended;
struct OwnCompare : public CompareVisitor {
  Extended *t; int k; std::string say; int depth;
  OwnCompare(Extended *, int, const std::string &);
  ~OwnCompare();
  virtual void SetToleranceOff(void);
  virtual void SetTolerance(double);
  virtual bool GetResult(void) const;
  virtual void SetBaselineMeasurement(Measurement *);
  bool own(Measurement &);
#define OWN(C, Base) virtual void Visit(C &m) { if (own(m)) return; ++depth; Base::Visit(m); --depth; }
#define ALLOWN(Base) OWN(Measurement, Base) OWN(MeasurementFile, Base) OWN(DataMeasurement, Base) OWN(TextData, Base) OWN(PlainText, Base) OWN(StringText, Base) \
  OWN(NumericData, Base) OWN(IntegerNumeric, Base) OWN(FloatNumeric, Base) OWN(DoubleNumeric, Base) OWN(BooleanNumeric, Base)
  ALLOWN(CompareVisitor)
};
struct OwnDifference : public DifferenceVisitor {
  Extended *t; int k; std::string say; int depth; bool plain; std::string text;
  OwnDifference(Extended *, int, const std::string &);
  ~OwnDifference();
  virtual void SetOutStream(std::ostream &);
  virtual void SetBaselineMeasurement(Measurement *);
  bool own(Measurement &);
  ALLOWN(DifferenceVisitor)
};
// one of a type of its own
class OwnText : public PlainText {
public:
  virtual const std::string &GetAttributeType(void) const { static std::string t("text/string"); return t; }
};
class Extended : public BaseTest {
public:
  int log; mutable int made; long calls; Words cur; std::string outName; std::vector<Words> ops;
  Extended() : log(-1), made(0), calls(0) {}
  void say(const std::string &s) const { std::string l = s + "\n"; if (write(log, l.data(), l.size())) {} }
  void event(const char *e, int k, Measurement *m = 0, int v = 0, const std::string *w = 0, const std::string &c = "") const {
    say("V {\"e\":\"" + std::string(e) + "\",\"k\":" + num(k) + ",\"n\":" + bytes(m ? m->GetAttributeName() : "") + ",\"t\":" + bytes(m ? m->GetAttributeType() : "") +
      ",\"c\":" + bytes(m ? m->GetContent() : c) + ",\"v\":" + num(v) + ",\"w\":" + (w ? bytes(*w) : "[]") + "}");
  }
  static std::string digits(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
  bool isOut(std::ostream &os) { return &os == &this->GetOutStream(); }
  std::ostream &out() { return this->GetOutStream(); }
protected:
  virtual CompareVisitor *CreateCompareVisitor(void) const { return new OwnCompare(const_cast<Extended*>(this), ++made, cur[5]); }
  virtual DifferenceVisitor *CreateDifferenceVisitor(void) const { return new OwnDifference(const_cast<Extended*>(this), ++made, cur[5]); }
  std::string written(off_t from, off_t &to) {
    this->GetOutStream().flush(); std::cout.flush(); fflush(stdout);
    int f = open(outName.c_str(), O_RDONLY);
    struct stat s; fstat(f, &s); to = s.st_size;
    std::string r(to > from ? to - from : 0, 0);
    if (!r.empty() && pread(f, &r[0], r.size(), from) < 0) r = "?";
    close(f);
    return r;
  }
  int byObject(Measurement &m, const std::string &n, bool tolerant) {
    m.SetAttributeName(n); m.SetContent(unhex(cur[3]));
    if (this->GetCompareMode()) return CompareMeasurement(m, tolerant);
    this->GetOutStream() << m << std::endl;
    return 0;
  }
  // how name type/value tolerance say plain text
  int measure(const Words &w) {
    std::string n = unhex(w[1]);
    const std::string &k = w[0];
    int t = w[4] == "d" ? -1 : atoi(w[4].c_str());
#define MAYBE(F, X) (t < 0 ? F(X, n) : F(X, n, t != 0))
    if (k == "I") return MAYBE(MeasurementNumericInteger, strtol(w[3].c_str(), 0, 10));
    if (k == "F") return MAYBE(MeasurementNumericFloat, strtof(w[3].c_str(), 0));
    if (k == "D") return MAYBE(MeasurementNumericDouble, strtod(w[3].c_str(), 0));
    if (k == "B") return MAYBE(MeasurementNumericBoolean, w[3] != "0");
    if (k == "S") return MeasurementTextString(unhex(w[3]), n);
    if (k == "P") return MeasurementTextPlain(unhex(w[3]), n);
    if (k == "FT") return MeasurementFileTextPlain(unhex(w[3]), n);
    if (k == "FG") return MeasurementFileImagePNG(unhex(w[3]), n);
    if (k == "FJ") return MeasurementFileImageJPEG(unhex(w[3]), n);
    bool tl = t > 0;
    if (k == "oI") { IntegerNumeric o; return byObject(o, n, tl); }
    if (k == "oF") { FloatNumeric o; return byObject(o, n, tl); }
    if (k == "oD") { DoubleNumeric o; return byObject(o, n, tl); }
    if (k == "oB") { BooleanNumeric o; return byObject(o, n, tl); }
    if (k == "oS") { StringText o; return byObject(o, n, tl); }
    if (k == "oP") { PlainText o; return byObject(o, n, tl); }
    if (k == "oO") { OwnText o; return byObject(o, n, tl); }
    if (k == "oM") { MeasurementFile o; o.SetAttributeType(unhex(w[2])); return byObject(o, n, tl); }
    return -99;
  }
  virtual int Test(int, char *[]) {
    char cwd[4096];
    outName = this->GetOutFileName() == "" ? ".stdout" : this->GetOutFileName();
    if (outName[0] != '/' && getcwd(cwd, sizeof cwd)) outName = std::string(cwd) + "/" + outName;
    int j = 0;
    for (size_t i = 0; i < ops.size(); ++i) {
      cur = ops[i];
      if (cur[0] == "tol") { double v = strtod(cur[1].c_str(), 0); event("tol", 0, 0, 0, 0, digits(v)); this->SetRelativeTolerance(v); continue; }
      off_t a, b;
      written(0, a);
      event("call", j++);
      int r = measure(cur);
      std::string w = written(a, b);
      event("ret", 0, 0, r != 0, &w);
      ++calls;
    }
    return this->GetExpectedReturn();
  }
};
static int outermost(Extended *t, int k, int depth, const std::string &say, const char *bad, Measurement &m) {
  if (depth) return 0;
  if (say == bad) { t->event("throw", k, &m); throw std::runtime_error("scripted"); }
  t->event("visit", k, &m);
  return 1;
}
OwnCompare::OwnCompare(Extended *x, int n, const std::string &s) : t(x), k(n), say(s), depth(0) { t->event("newC", k); }
OwnCompare::~OwnCompare() { t->event("del", k); }
void OwnCompare::SetToleranceOff(void) { if (!depth) t->event("off", k); ++depth; CompareVisitor::SetToleranceOff(); --depth; }
void OwnCompare::SetTolerance(double v) {
  if (!depth) t->event("tolerance", k, 0, 0, 0, Extended::digits(v));
  ++depth; CompareVisitor::SetTolerance(v); --depth;     // what it does by calling the others is its own business
}
bool OwnCompare::GetResult(void) const {
  bool r = say == "base" ? CompareVisitor::GetResult() : say == "yes";
  t->event("ask", k, 0, r);
  return r;
}
void OwnCompare::SetBaselineMeasurement(Measurement *m) { t->event("base", k, m); CompareVisitor::SetBaselineMeasurement(m); }
bool OwnCompare::own(Measurement &m) { return outermost(t, k, depth, say, "cthrow", m) && say != "base"; }
OwnDifference::OwnDifference(Extended *x, int n, const std::string &s) : t(x), k(n), say(s), depth(0) { t->event("newD", k); }
OwnDifference::~OwnDifference() { t->event("del", k); }
void OwnDifference::SetOutStream(std::ostream &o) { t->event("out", k, 0, t->isOut(o)); DifferenceVisitor::SetOutStream(o); }
void OwnDifference::SetBaselineMeasurement(Measurement *m) { t->event("base", k, m); DifferenceVisitor::SetBaselineMeasurement(m); }
bool OwnDifference::own(Measurement &m) {
  if (!outermost(t, k, depth, say, "dthrow", m)) return false;
  if (t->cur[6] == "0") return false;
  GetOutStream() << unhex(t->cur[7]);
  return true;
}
static void doExtended(const std::string &id) {
  std::vector<Words> b;
  readBlock(b);
  std::string dir = "."; Words args; std::vector<Words> ops;
  for (size_t i = 0; i < b.size(); ++i) {
    const Words &w = b[i];
    if (w[0] == "dir") dir = unhex(w[1]);
    else if (w[0] == "arg") args.push_back(unhex(w[1]));
    else if (w[0] == "op") ops.push_back(Words(w.begin()+1, w.end()));
  }
  char logName[64];
  snprintf(logName, 64, "/tmp/tfdrv.%d.log", (int)getpid());
  int log = open(logName, O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0600);
  unlink(logName);
  fflush(OUT);
  pid_t p = fork();
  if (!p) {
    if (chdir(dir.c_str())) _exit(111);
    int o = open(".stdout", O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0666), e = open(".stderr", O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0666);
    dup2(o, 1); dup2(e, 2);
    int n = open("/dev/null", O_RDONLY); dup2(n, 0);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 256 << 20; setrlimit(RLIMIT_FSIZE, &rl);
    alarm(hung < 3 ? 10 : 3);
    {
      Extended t;
      t.log = log; t.ops = ops;
      std::vector<char*> av;
      for (size_t i = 0; i < args.size(); ++i) av.push_back(strdup(args[i].c_str()));
      av.push_back(0);
      int r = t.Main((int)args.size(), av.data());
      t.say("R " + num(r) + " " + num(t.calls));
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hung;
  std::string s, line, evs; long long res = -999, calls = -1;
  char buf[65536]; ssize_t k; lseek(log, 0, SEEK_SET);
  while ((k = read(log, buf, sizeof buf)) > 0) s.append(buf, k);
  close(log);
  std::istringstream is(s);
  while (std::getline(is, line)) {
    if (line[0] == 'V') evs += (evs.empty() ? "" : ",") + line.substr(2);
    else if (line[0] == 'R') { Words w = split(line); res = atoll(w[1].c_str()); calls = atoll(w[2].c_str()); }
  }
  answer("{\"id\":" + id + ",\"evs\":[" + evs + "],\"res\":" + num(res) + ",\"calls\":" + num(calls) +
    ",\"sig\":" + num(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ",\"code\":" + num(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + "}");
}

// -------------------------------------------------------------- base64

// what an object was used for before has no effect
static void used(Base64 &b) {
  unsigned char o[256];
  const char *t[] = {"QUJD", "QQ==", "Q", "Q*UJD", "====", "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWZnaGlqa2xtbm9wcXJzdHV2d3h5ejAxMjM0NQ\n", ""};
  for (int ignore = 0; ignore < 2; ++ignore) {
    if (ignore) b.IgnoreInvalidsOn(); else b.IgnoreInvalidsOff();
    if (ignore) b.NeLinesOff(); else b.NewLinesOn();
    b.Encode("some bytes which take more than a line of the text: 0123456789 0123456789", 73);
    for (size_t j = 0; j < sizeof t / sizeof *t; ++j) { b.IsBase64(t[j]); try { b.Decode(t[j], o); } catch (std::exception &) {} }
  }
}
static void doBase64(const Words &w) {
  Base64 b;
  bool again = atoi(w[1].c_str()) % 2;
  if (again) used(b);
  if (w[0] == "b64enc") {
    std::string in = unhex(w[2]);
    b.SetAddNewLines(w[3] != "0");
    if (w.size() > 4) { if (w[4] == "on") b.NewLinesOn(); else b.NeLinesOff(); }
    // an exact allocation, so that nothing behind the input is looked at
    answer("{\"id\":" + w[1] + ",\"text\":" + bytes(b.Encode(in.data(), in.size())) + ",\"get\":" + num(b.GetAddNewLines()) + "}");
    return;
  }
  std::string in = unhex(w[2]);
  if (!again) b.SetIgnoreInvalids(w[3] != "0");
  else if (w[3] != "0") b.IgnoreInvalidsOn(); else b.IgnoreInvalidsOff();
  if (b.GetIgnoreInvalids() != (w[3] != "0")) { answer("{\"id\":" + w[1] + ",\"is\":-1,\"dec\":-2,\"bytes\":[],\"touched\":0}"); return; }
  size_t is = b.IsBase64(in);
  size_t cap = in.size() + 64;
  std::vector<unsigned char> o1(cap, 0xA5), o2(cap, 0x5A);
  long d = -1;
  try { d = (long)b.Decode(in, o1.data()); b.Decode(in, o2.data()); } catch (std::exception &) { d = -1; }
  size_t touched = 0;
  for (size_t i = 0; i < cap; ++i) if (o1[i] != 0xA5 || o2[i] != 0x5A) touched = i + 1;
  size_t n = d < 0 ? 0 : std::min((size_t)d, cap);
  answer("{\"id\":" + w[1] + ",\"is\":" + num(is) + ",\"dec\":" + num(d) + ",\"bytes\":" + bytes(o1.data(), n) +
         ",\"touched\":" + num(touched) + "}");
}

// --------------------------------------------------------------- paths

static std::string list(const fileutil::PathList &l) {
  std::string s = "["; bool first = true;
  for (fileutil::PathList::const_iterator i = l.begin(); i != l.end(); ++i) { s += (first ? "" : ",") + bytes(i->GetPathName()); first = false; }
  return s + "]";
}
static void doPath(const Words &w) {
  using namespace fileutil;
  std::string id = "{\"id\":" + w[1];
  const std::string &k = w[0];
  if (k == "pparts") {
    PathName p(unhex(w[2]));
    answer(id + ",\"dir\":" + bytes(p.DirectoryName().GetPathName()) + ",\"tail\":" + bytes(p.Tail().GetPathName()) +
      ",\"ext\":" + bytes(p.Extension()) + ",\"abs\":" + num(p.GetPathType() == PathName::Absolute) + ",\"same\":" + bytes(p.GetPathName()) + "}");
  } else if (k == "pappend") {
    PathName a(unhex(w[2])), b(unhex(w[3]));
    PathName &r = a.Append(b);
    answer(id + ",\"res\":" + bytes(a.GetPathName()) + ",\"self\":" + num(&r == &a) + ",\"rhs\":" + bytes(b.GetPathName()) + "}");
  } else if (k == "pjoin") {     // split and join again
    PathName p(unhex(w[2])), d(p.DirectoryName());
    d.Append(p.Tail());
    answer(id + ",\"res\":" + bytes(d.GetPathName()) + "}");
  } else if (k == "pcolon") {
    answer(id + ",\"list\":" + list(GetPathListFromColonSeparatedList(unhex(w[2]))) + "}");
  } else if (k == "penv") {
    if (w[2] == "unset") unsetenv("TFDRV_PATH"); else setenv("TFDRV_PATH", unhex(w[2]).c_str(), 1);
    answer(id + ",\"list\":" + list(GetPathFromEnviroment("TFDRV_PATH")) + "}");
  }
}
// in the directory given: searching, predicates, changes of the tree and of the current directory
static void doTree(const std::string &id) {
  using namespace fileutil;
  std::vector<Words> b;
  readBlock(b);
  std::string out;
  fflush(OUT);
  int fd[2]; if (pipe(fd)) return;
  pid_t p = fork();
  if (!p) {
    close(fd[0]); alarm(20);
    struct rlimit lim = {64, 64}; setrlimit(RLIMIT_NOFILE, &lim);     // what is opened has to be closed
    std::map<std::string, PathName> names;
    std::string s;
    for (size_t i = 0; i < b.size(); ++i) {
      const Words &w = b[i];
      const std::string &k = w[0];
      std::string r;
      if (k == "root") { if (chdir(unhex(w[1]).c_str())) _exit(111); continue; }
      else if (k == "user") { if (setgroups(0, 0) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) _exit(112); continue; }
      else if (k == "file") { std::ofstream o(unhex(w[1]).c_str(), std::ios::binary); o << "content"; continue; }
      else if (k == "dir") { mkdir(unhex(w[1]).c_str(), 0777); continue; }
      else if (k == "fifo") { mkfifo(unhex(w[1]).c_str(), 0666); continue; }
      else if (k == "link") { if (symlink(unhex(w[2]).c_str(), unhex(w[1]).c_str())) {} continue; }
      else if (k == "mv") { struct stat st; if (lstat(unhex(w[2]).c_str(), &st) && rename(unhex(w[1]).c_str(), unhex(w[2]).c_str())) {} continue; }
      else if (k == "rm") { if (unlink(unhex(w[1]).c_str())) rmdir(unhex(w[1]).c_str()); continue; }
      else if (k == "chmod") { if (chmod(unhex(w[1]).c_str(), strtol(w[2].c_str(), 0, 8))) {} continue; }
      else if (k == "search") {
        PathList l; for (size_t j = 2; j < w.size(); ++j) l.push_back(unhex(w[j]));
        PathName n(unhex(w[1])), f(n.SearchPathList(l));
        r = "{\"found\":" + bytes(f.GetPathName()) + ",\"name\":" + bytes(n.GetPathName()) + "}";
      } else if (k == "pred") {    // the object is kept, so a cache would show
        std::string n = unhex(w[1]);
        if (!names.count(n)) names[n] = PathName(n);
        const PathName &q = names[n];
        r = "{\"f\":" + num(q.IsFile()) + ",\"d\":" + num(q.IsDirectory()) + ",\"e\":" + num(q.Exists()) +
          ",\"rd\":" + num(q.IsReadable()) + ",\"wr\":" + num(q.IsWritable()) + ",\"ex\":" + num(q.IsExecutable()) + "}";
      } else if (k == "cd") {
        int t = 0; bool v = false;
        try { v = SetCurrentDirectory(unhex(w[1])); } catch (std::exception &) { t = 1; }
        r = "{\"threw\":" + num(t) + ",\"v\":" + num(v) + ",\"cwd\":" + bytes(GetCurrentDirectory().GetPathName()) + "}";
      } else if (k == "ls") {
        PathName q(unhex(w[1]));
        PathList l = q.SearchDirectory();
        r = "{\"list\":" + list(l) + ",\"name\":" + bytes(q.GetPathName()) + "}";
      } else if (k == "where") {
        r = "{\"cwd\":" + bytes(GetCurrentDirectory().GetPathName()) + "}";
      }
      s += (s.empty() ? "" : ",") + r;
    }
    s = "[" + s + "]";
    size_t done = 0; while (done < s.size()) { ssize_t k = write(fd[1], s.data() + done, s.size() - done); if (k <= 0) break; done += k; }
    _exit(0);
  }
  close(fd[1]);
  char buf[65536]; ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, k);
  close(fd[0]);
  int st; waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) out = "[]";
  answer("{\"id\":" + id + ",\"obs\":" + out + ",\"sig\":" + num(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ",\"code\":" + num(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + "}");
}

// -------------------------------------------------- measurement objects

static Measurement *make(const std::string &t) {
  if (t == "plain") return new PlainText;
  if (t == "string") return new StringText;
  if (t == "int") return new IntegerNumeric;
  if (t == "float") return new FloatNumeric;
  if (t == "double") return new DoubleNumeric;
  if (t == "bool") return new BooleanNumeric;
  if (t == "file") { MeasurementFile *f = new MeasurementFile; f->SetAttributeType("text/plain"); return f; }
  return CreateDataMeasurement(t);     // by attribute type
}
template <class T> static bool copyAs(Measurement *&d, Measurement *s) {
  if (typeid(*s) != typeid(T)) return false;
  T *n = new T(*static_cast<T*>(s)); delete d; d = n; return true;
}
template <class T> static bool assignAs(Measurement *d, Measurement *s) {
  if (typeid(*s) != typeid(T) || typeid(*d) != typeid(T)) return false;
  *static_cast<T*>(d) = *static_cast<T*>(s); return true;
}
static void doObjects(const std::string &id) {
  std::vector<Words> b;
  readBlock(b);
  std::map<std::string, Measurement*> m;
  std::string s;
  for (size_t i = 0; i < b.size(); ++i) {
    const Words &w = b[i];
    const std::string &k = w[0];
    std::string r = "{}";
    Measurement *&a = m[w[1]];
    DataMeasurement *d = dynamic_cast<DataMeasurement*>(a);
    if (k == "new") { delete a; a = make(w[2]); }
    else if (k == "free") { delete a; a = 0; m.erase(w[1]); s += (s.empty() ? "" : ",") + r; continue; }
    else if (k == "name") a->SetAttributeName(unhex(w[2]));
    else if (k == "text") a->SetContent(unhex(w[2]));
    else if (k == "data") { std::string v = unhex(w[2]); if (d) d->SetContentAsData(v.data(), v.size()); r = "{\"t\":" + bytes(a->GetContent()) + "}"; }
    else if (k == "ftype") { if (MeasurementFile *f = dynamic_cast<MeasurementFile*>(a)) f->SetAttributeType(unhex(w[2])); }
    else if (k == "comp") { if (d) d->SetAttributeCompression(unhex(w[2])); }
    else if (k == "enc") { if (d) d->SetAttributeEncoding(unhex(w[2])); }
    else if (k == "copy") { Measurement *f = m[w[2]]; copyAs<PlainText>(a, f) || copyAs<StringText>(a, f) || copyAs<IntegerNumeric>(a, f) || copyAs<FloatNumeric>(a, f) || copyAs<DoubleNumeric>(a, f) || copyAs<BooleanNumeric>(a, f) || copyAs<MeasurementFile>(a, f); }
    else if (k == "asg") { Measurement *f = m[w[2]]; assignAs<PlainText>(a, f) || assignAs<StringText>(a, f) || assignAs<IntegerNumeric>(a, f) || assignAs<FloatNumeric>(a, f) || assignAs<DoubleNumeric>(a, f) || assignAs<BooleanNumeric>(a, f) || assignAs<MeasurementFile>(a, f); }
    else if (k == "gt") r = "{\"t\":" + bytes(a->GetContent()) + "}";
    else if (k == "gd") { size_t n = d->GetContentAsDataSize(); const void *p = d->GetContentAsData(); r = "{\"d\":" + bytes(p, n) + "}"; }
    else if (k == "gp") { const void *p = d->GetContentAsData(); size_t n = d->GetContentAsDataSize(); r = "{\"d\":" + bytes(p, n) + "}"; }
    else if (k == "eq") r = "{\"e\":" + num(*a == *m[w[2]]) + "}";
    else if (k == "attr") r = "{\"n\":" + bytes(a->GetAttributeName()) + ",\"ty\":" + bytes(a->GetAttributeType()) + ",\"enc\":" + bytes(d ? d->GetAttributeEncoding() : "") + ",\"comp\":" + bytes(d ? d->GetAttributeCompression() : "") + "}";
    else if (k == "print") { std::ostringstream o; if (w.size() > 2) a->Print(o); else o << *a; r = "{\"p\":" + bytes(o.str()) + "}"; }
    else if (k == "esc") {
      bool on = w[2] != "0";
      if (i % 2) a->SetApplyEscapeSequences(on); else if (on) a->ApplyEscapeSequencesOn(); else a->ApplyEscapeSequencesOff();
      r = "{\"esc\":" + num(a->GetApplyEscapeSequences()) + "}";
    }
    else if (k == "setval") {
      if (IntegerNumeric *n = dynamic_cast<IntegerNumeric*>(a)) n->SetValue(strtol(w[2].c_str(), 0, 10));
      else if (FloatNumeric *n = dynamic_cast<FloatNumeric*>(a)) n->SetValue(strtof(w[2].c_str(), 0));
      else if (DoubleNumeric *n = dynamic_cast<DoubleNumeric*>(a)) n->SetValue(strtod(w[2].c_str(), 0));
      else if (BooleanNumeric *n = dynamic_cast<BooleanNumeric*>(a)) n->SetValue(w[2] != "0");
    } else if (k == "getval") {
      char v[64] = "";
      if (IntegerNumeric *n = dynamic_cast<IntegerNumeric*>(a)) snprintf(v, 64, "%ld", (long)n->GetValue());
      else if (FloatNumeric *n = dynamic_cast<FloatNumeric*>(a)) snprintf(v, 64, "%.7g", n->GetValue());
      else if (DoubleNumeric *n = dynamic_cast<DoubleNumeric*>(a)) snprintf(v, 64, "%.15g", n->GetValue());
      else if (BooleanNumeric *n = dynamic_cast<BooleanNumeric*>(a)) if (n->GetContent() == "0" || n->GetContent() == "1") snprintf(v, 64, "%d", (int)n->GetValue());
      r = "{\"v\":" + bytes(std::string(v)) + "}";
    }
    s += (s.empty() ? "" : ",") + r;
  }
  for (std::map<std::string, Measurement*>::iterator i = m.begin(); i != m.end(); ++i) delete i->second;
  answer("{\"id\":" + id + ",\"obs\":[" + s + "]}");
}

// ------------------------------------------------------------- visitors

// redefines the handlers in a set; for the others the inherited ones are called
template <class Base> class MaskVisitor : public Base {
public:
  unsigned mask; std::vector<int> calls; std::vector<const void*> who;
  using Base::Visit;
#define HANDLER(N, C) \
  virtual void Visit(C &m) { \
    if (mask & (1u << N)) { calls.push_back(N); who.push_back(dynamic_cast<const void*>(&m)); } \
    else Base::Visit(m); }
  HANDLER(0, Measurement) HANDLER(1, MeasurementFile) HANDLER(2, DataMeasurement) HANDLER(3, TextData)
  HANDLER(4, PlainText) HANDLER(5, StringText) HANDLER(6, NumericData) HANDLER(7, IntegerNumeric)
  HANDLER(8, FloatNumeric) HANDLER(9, DoubleNumeric) HANDLER(10, BooleanNumeric)
};
static Measurement *made(const std::string &t) {
  Measurement *m = make(t);
  m->SetAttributeName("a name"); m->SetContent("1");
  return m;
}
// which handler of the base did something can only be seen from what it did
static void setUp(MaskVisitor<MeasurementVisitor> &, Measurement *, std::ostream &, int) {}
static void setUp(MaskVisitor<DifferenceVisitor> &v, Measurement *b, std::ostream &o, int) { v.SetBaselineMeasurement(b); v.SetOutStream(o); }
static void setUp(MaskVisitor<CompareVisitor> &v, Measurement *b, std::ostream &, int again) { if (again) b->SetContent("1 "); v.SetBaselineMeasurement(b); v.SetTolerance(.5); }
static int effect(MaskVisitor<MeasurementVisitor> &, std::ostringstream &) { return 0; }
static int effect(MaskVisitor<DifferenceVisitor> &, std::ostringstream &o) {
  return (o.str().find("\"Difference a name\"") != std::string::npos ? 1 : 0) + (o.str().find("\"Baseline a name\"") != std::string::npos ? 2 : 0);
}
static int effect(MaskVisitor<CompareVisitor> &v, std::ostringstream &) { return v.GetResult(); }
template <class Base> static void visitWith(const Words &w) {
  std::string calls[2]; int eff[2]; bool same = true;
  for (int again = 0; again < 2; ++again) {
    Measurement *m = made(w[2]), *b = made(w[2]);
    MaskVisitor<Base> v; v.mask = atoi(w[3].c_str());
    std::ostringstream out, x, y; x << *m;
    setUp(v, b, out, again);
    m->AcceptVisitor(v);
    y << *m;
    eff[again] = effect(v, out);
    if (!eff[again]) same = same && x.str() == y.str();
    for (size_t i = 0; i < v.who.size(); ++i) same = same && v.who[i] == dynamic_cast<const void*>(m);
    for (size_t i = 0; i < v.calls.size(); ++i) calls[again] += (i ? "," : "") + num(v.calls[i]);
    delete m; delete b;
  }
  answer("{\"id\":" + w[1] + ",\"calls\":[" + calls[0] + "],\"again\":[" + calls[1] + "],\"eff\":[" + num(eff[0]) + "," + num(eff[1]) + "],\"same\":" + num(same) + "}");
}
static void doVisit(const Words &w) {   // visit id type mask base
  if (w[4] == "difference") visitWith<DifferenceVisitor>(w);
  else if (w[4] == "compare") visitWith<CompareVisitor>(w);
  else visitWith<MeasurementVisitor>(w);
}

// --------------------------------------------------------------- images

#ifdef WITH_ITK
// the values are given in units, and so are the answers
template <class P, unsigned int D> static typename itk::Image<P,D>::Pointer picture(const Words &size, const Words &start, const Words &v, double unit) {
  typedef itk::Image<P,D> I;
  typename I::IndexType x; typename I::SizeType z;
  for (unsigned int i = 0; i < D; ++i) { z[i] = atoi(size[i+1].c_str()); x[i] = atoi(start[i+1].c_str()); }
  typename I::Pointer p = I::New();
  p->SetRegions(typename I::RegionType(x, z)); p->Allocate();
  itk::ImageRegionIterator<I> it(p, p->GetLargestPossibleRegion());
  for (size_t j = 1; !it.IsAtEnd() && j < v.size(); ++it, ++j) it.Set((P)(atoi(v[j].c_str()) * unit));
  return p;
}
static std::string text(double v) { char b[64]; snprintf(b, 64, "%.17g", v); std::string s = "["; for (char *p = b; *p; ++p) s += (p == b ? "" : ",") + num(*p); return s + "]"; }
template <class P, unsigned int D> static std::string difference(std::map<std::string, Words> &g) {
  typedef itk::Image<P,D> I;
  double unit = atof(g["unit"][1].c_str());
  typename I::Pointer a = picture<P,D>(g["size"], g["start"], g["a"], unit), b = picture<P,D>(g["sizeb"], g["start"], g["b"], unit);
  double tol = atof(g["tol"][1].c_str()) * unit;
  unsigned int rad = atoi(g["radius"][1].c_str());
  std::string cs;
  // an image which is compared with the part of the baseline where it is
  if (g.count("at")) {
    Words at = g["at"];
    for (unsigned int i = 0; i < D; ++i) { char t[32]; snprintf(t, 32, "%d", atoi(g["start"][i+1].c_str()) + atoi(at[i+1].c_str())); at[i+1] = t; }
    b = picture<P,D>(g["sizeb"], at, g["b"], unit);
    typename I::RegionType reg = b->GetLargestPossibleRegion();
    for (size_t j = 1; j < g["ptol"].size(); ++j) {
      unsigned int n = strtoul(g["ptol"][j].c_str(), 0, 10);
      unsigned long r = n == 0 && rad == 0 && tol == 0 ? itk::Regression::CompareImage<I>(typename I::ConstPointer(b), typename I::ConstPointer(a), reg)
                                                       : itk::Regression::CompareImage<I>(typename I::ConstPointer(b), typename I::ConstPointer(a), tol, n, rad, reg);
      cs += (j > 1 ? "," : "") + num(r == std::numeric_limits<unsigned long>::max() ? -1 : (long long)r);
    }
    return ",\"cmps\":[" + cs + "],\"same\":0";
  }
  for (size_t j = 1; j < g["ptol"].size(); ++j) {
    unsigned int n = strtoul(g["ptol"][j].c_str(), 0, 10);
    unsigned long r = itk::Regression::CompareImage<I>(typename I::ConstPointer(b), typename I::ConstPointer(a), tol, n, rad);
    cs += (j > 1 ? "," : "") + num(r == std::numeric_limits<unsigned long>::max() ? -1 : (long long)r);
  }
  std::string s = ",\"cmps\":[" + cs + "]";
  // the same images in files
  if (g.count("files")) {
    std::string d = unhex(g["files"][1]), fs;
    for (int k = 0; k < 2; ++k) {
      typedef itk::ImageFileWriter<I> W;
      typename W::Pointer w = W::New();
      w->SetInput(k ? b : a); w->SetFileName(d + (k ? "/t.mha" : "/b.mha")); w->Update();
    }
    for (size_t j = 1; j < g["ptol"].size(); ++j) {
      unsigned int n = strtoul(g["ptol"][j].c_str(), 0, 10);
      fileutil::PathName t(d + "/t.mha"), u(d + "/b.mha");
      unsigned long r = n == 0 && rad == 0 && tol == 0 ? itk::Regression::CompareImage<I>(t, u) : itk::Regression::CompareImage<I>(t, u, tol, n, rad);
      fs += (j > 1 ? "," : "") + num(r == std::numeric_limits<unsigned long>::max() ? -1 : (long long)r);
    }
    s += ",\"fcmps\":[" + fs + "]";
  }
  if (a->GetLargestPossibleRegion() != b->GetLargestPossibleRegion()) return s + ",\"same\":0";
  typedef itk::tf::DifferenceImageFilter<I,itk::Image<double,D> > F;
  typename F::Pointer f = F::New();
  f->SetValidInput(a); f->SetTestInput(b);
  f->SetMagnitudeThreshold(tol); f->SetToleranceRadius(rad);
  f->SetIgnoreBoundaryPixels(g["ignore"][1] == "1");
  int th = atoi(g["threads"][1].c_str());
  if (th) { f->SetNumberOfWorkUnits(th); }
  std::string o, st;
  for (int pass = 0; pass < atoi(g["passes"][1].c_str()); ++pass) {
    if (pass) f->Modified();
    f->UpdateLargestPossibleRegion();
    st += std::string(pass ? "," : "") + "{\"num\":" + num((long long)f->GetNumberOfPixelsWithDifferences()) + ",\"total\":" + text(f->GetTotalMagnitude() / unit) + ",\"mean\":" + text(f->GetMeanMagnitude() / unit) + "}";
  }
  itk::ImageRegionConstIterator<itk::Image<double,D> > it(f->GetOutput(), f->GetOutput()->GetLargestPossibleRegion());
  for (; !it.IsAtEnd(); ++it) o += (o.empty() ? "" : ",") + num((long long)(it.Get() / unit));
  return s + ",\"same\":1,\"stats\":[" + st + "],\"out\":[" + o + "]";
}
// images whose pixels have components
#ifdef WITH_COMPOSED
template <class T> static void put(std::complex<T> &p, const double *v, unsigned int) { p = std::complex<T>((T)v[0], (T)v[1]); }
template <class T, unsigned int N> static void put(itk::FixedArray<T,N> &p, const double *v, unsigned int) { for (unsigned int i = 0; i < N; ++i) p[i] = (T)v[i]; }
template <class T> static void put(itk::VariableLengthVector<T> &p, const double *v, unsigned int n) { p.SetSize(n); for (unsigned int i = 0; i < n; ++i) p[i] = (T)v[i]; }
template <class T> static double part(const std::complex<T> &p, unsigned int i) { return i ? p.imag() : p.real(); }
template <class T, unsigned int N> static double part(const itk::FixedArray<T,N> &p, unsigned int i) { return p[i]; }
template <class T> static double part(const itk::VariableLengthVector<T> &p, unsigned int i) { return p[i]; }
template <class I> static typename I::Pointer composed(const Words &size, const Words &start, const Words &v, double unit, unsigned int n) {
  typename I::IndexType x; typename I::SizeType z;
  for (unsigned int i = 0; i < I::ImageDimension; ++i) { z[i] = atoi(size[i+1].c_str()); x[i] = atoi(start[i+1].c_str()); }
  typename I::Pointer p = I::New();
  p->SetRegions(typename I::RegionType(x, z)); p->SetNumberOfComponentsPerPixel(n); p->Allocate();
  itk::ImageRegionIterator<I> it(p, p->GetLargestPossibleRegion());
  std::vector<double> c(n);
  for (size_t j = 1; !it.IsAtEnd() && j + n <= v.size(); ++it, j += n) {
    for (unsigned int i = 0; i < n; ++i) c[i] = atoi(v[j+i].c_str()) * unit;
    typename I::PixelType q;
    put(q, &c[0], n);
    it.Set(q);
  }
  return p;
}
template <class I> static std::string composedDifference(std::map<std::string, Words> &g) {
  double unit = atof(g["unit"][1].c_str());
  unsigned int n = atoi(g["comps"][1].c_str());
  typename I::Pointer a = composed<I>(g["size"], g["start"], g["a"], unit, n);
  double tol = atof(g["tol"][1].c_str()) * unit;
  unsigned int rad = atoi(g["radius"][1].c_str());
  Words at = g["start"];
  bool some = g.count("at");
  for (unsigned int i = 1; some && i < at.size(); ++i) { char t[32]; snprintf(t, 32, "%d", atoi(at[i].c_str()) + atoi(g["at"][i].c_str())); at[i] = t; }
  typename I::Pointer b = composed<I>(g["sizeb"], at, g["b"], unit, n);
  std::string cs;
  for (size_t j = 1; j < g["ptol"].size(); ++j) {
    unsigned int m = strtoul(g["ptol"][j].c_str(), 0, 10);
    typename I::ConstPointer x(b), y(a);
    unsigned long r = some ? itk::Regression::CompareImage<I>(x, y, tol, m, rad, b->GetLargestPossibleRegion()) : itk::Regression::CompareImage<I>(x, y, tol, m, rad);
    cs += (j > 1 ? "," : "") + num(r == std::numeric_limits<unsigned long>::max() ? -1 : (long long)r);
  }
  std::string s = ",\"cmps\":[" + cs + "]";
  if (a->GetLargestPossibleRegion() != b->GetLargestPossibleRegion()) return s;
  typedef itk::tf::DifferenceImageFilter<I,I> F;
  typename F::Pointer f = F::New();
  f->SetValidInput(a); f->SetTestInput(b);
  f->SetMagnitudeThreshold(tol); f->SetToleranceRadius(rad);
  f->SetIgnoreBoundaryPixels(g["ignore"][1] == "1");
  int th = atoi(g["threads"][1].c_str());
  if (th) { f->SetNumberOfWorkUnits(th); }
  std::string o, st;
  for (int pass = 0; pass < atoi(g["passes"][1].c_str()); ++pass) {
    if (pass) f->Modified();
    f->UpdateLargestPossibleRegion();
    st += std::string(pass ? "," : "") + "{\"num\":" + num((long long)f->GetNumberOfPixelsWithDifferences()) + ",\"total\":" + num((long long)floor(f->GetTotalMagnitude() / unit * 256)) +
      ",\"mean\":" + num((long long)floor(f->GetMeanMagnitude() / unit * 256)) + "}";
  }
  itk::ImageRegionConstIterator<I> it(f->GetOutput(), f->GetOutput()->GetLargestPossibleRegion());
  for (; !it.IsAtEnd(); ++it) for (unsigned int i = 0; i < n; ++i) o += (o.empty() ? "" : ",") + num((long long)(part(it.Get(), i) / unit));
  return s + ",\"stats\":[" + st + "],\"out\":[" + o + "]";
}
#endif
static void doImages(const std::string &id) {
  std::vector<Words> b;
  readBlock(b);
  std::map<std::string, Words> g;
  for (size_t i = 0; i < b.size(); ++i) g[b[i][0]] = b[i];
  std::string t = g["type"][1] + g["dims"][1], r;
  try {
    if (t == "double1") r = difference<double,1>(g);
    else if (t == "double2") r = difference<double,2>(g);
    else if (t == "double3") r = difference<double,3>(g);
    else if (t == "float2") r = difference<float,2>(g);
    else if (t == "short2") r = difference<short,2>(g);
    else if (t == "uchar2") r = difference<unsigned char,2>(g);
    else if (t == "short3") r = difference<short,3>(g);
#ifdef WITH_COMPOSED
    else if (t == "vector21") r = composedDifference<itk::Image<itk::Vector<double,2>,1> >(g);
    else if (t == "vector22") r = composedDifference<itk::Image<itk::Vector<double,2>,2> >(g);
    else if (t == "vector32") r = composedDifference<itk::Image<itk::Vector<float,3>,2> >(g);
    else if (t == "complex2") r = composedDifference<itk::Image<std::complex<double>,2> >(g);
    else if (t == "complex3") r = composedDifference<itk::Image<std::complex<double>,3> >(g);
    else if (t == "variable2") r = composedDifference<itk::VectorImage<double,2> >(g);
    else if (t == "variable3") r = composedDifference<itk::VectorImage<float,3> >(g);
#endif
    else r = ",\"unknown\":1";
  } catch (std::exception &e) { if (getenv("WHY")) std::cerr << e.what() << std::endl; r = ",\"threw\":1"; }
  answer("{\"id\":" + id + r + "}");
}
#endif

// ------------------------------------------------------ watchers of filters

#ifdef WITH_ITK
struct Sight {                       // what was seen of all processes
  std::vector<std::string> events; bool alive;
  Sight() : alive(true) {}
};
class Recorder : public itk::Command {
public:
  typedef Recorder Self; typedef itk::SmartPointer<Self> Pointer;
  itkFactorylessNewMacro(Self);
  Sight *sight;
  void Execute(itk::Object *o, const itk::EventObject &e) { Execute((const itk::Object *)o, e); }
  void Execute(const itk::Object *, const itk::EventObject &e) {
    if (itk::DeleteEvent().CheckEvent(&e)) sight->alive = false;
    else sight->events.push_back(e.GetEventName());
  }
};
#define EVENTS(X) X(Any) X(Start) X(End) X(Progress) X(Exit) X(Abort) X(Modified) X(Initialize) X(Iteration) X(MultiResolutionIteration) X(Pick) X(StartPick) \
  X(EndPick) X(AbortCheck) X(FunctionEvaluationIteration) X(GradientEvaluationIteration) X(FunctionAndGradientEvaluationIteration) X(User)
template <class O> static void happen(O *o, const std::string &e) {
#define X(N) if (e == #N "Event") o->InvokeEvent(itk::N##Event());
  EVENTS(X)
#undef X
}
// a process which does as it is told
class Told : public itk::ProcessObject {
public:
  typedef Told Self; typedef itk::SmartPointer<Self> Pointer;
  itkFactorylessNewMacro(Self);
  std::string name; Words script;
  const char *GetNameOfClass() const { return name.c_str(); }
  void Run() { this->UpdateOutputData(0); }
  void GenerateData() {
    for (size_t i = 0; i < script.size(); ++i) {
      const std::string &k = script[i];
      if (k == "progress") this->UpdateProgress(.5);
      else if (k == "abort") throw itk::ProcessAborted(__FILE__, __LINE__);
      else if (k == "fail") throw std::runtime_error("as told");
      else if (k == "stop") this->SetAbortGenerateData(true);
      else happen(this, k);
    }
  }
};
// one which has handlers of its own
class OwnWatcher : public itk::tf::FilterWatcher {
public:
  OwnWatcher(itk::ProcessObject *o, std::ostream &os, const char *c) : itk::tf::FilterWatcher(o, os, c) {}
  virtual void ShowProgress() { os << "<P>"; }
  virtual void ShowAbort() { os << "<A>"; }
  virtual void ShowIteration() { os << "<I>"; }
  virtual void StartFilter() { os << "<S " << GetNameOfClass() << ">"; }
  virtual void EndFilter() { os << "<E>"; itk::tf::FilterWatcher::EndFilter(); }
};
struct Watched { void *at; size_t size; itk::tf::FilterWatcher *w; };
static void doWatch(const std::string &id) {
  typedef itk::Image<double,2> I;
  typedef itk::tf::DifferenceImageFilter<I,I> F;
  std::vector<Words> b;
  readBlock(b);
  std::vector<itk::ProcessObject::Pointer> held; std::vector<itk::ProcessObject *> raw; std::vector<Sight *> seen;
  std::map<int, Watched> ws;
  std::ostringstream os[4]; std::string before[4];
  std::string s;
  for (size_t i = 0; i < b.size(); ++i) {
    const Words &w = b[i];
    const std::string &k = w[0];
    std::string r;
    int at = atoi(w[1].c_str());
    for (size_t j = 0; j < seen.size(); ++j) seen[j]->events.clear();
    if (k == "proc") {
      itk::ProcessObject::Pointer p;
      if (w[2] == "told") { Told::Pointer t = Told::New(); t->name = unhex(w[3]); p = t.GetPointer(); }
      else {
        int n = atoi(w[3].c_str());
        I::SizeType z; z.Fill(n);
        I::Pointer a = I::New(), c = I::New();
        a->SetRegions(I::RegionType(z)); a->Allocate(); a->FillBuffer(1);
        c->SetRegions(I::RegionType(z)); c->Allocate(); c->FillBuffer(n % 2);
        F::Pointer f = F::New();
        f->SetValidInput(a); f->SetTestInput(c);
        if (atoi(w[4].c_str())) f->SetNumberOfWorkUnits(atoi(w[4].c_str()));
        p = f.GetPointer();
      }
      Recorder::Pointer rec = Recorder::New();
      rec->sight = new Sight;
      p->AddObserver(itk::AnyEvent(), rec);
      held.push_back(p); raw.push_back(p.GetPointer()); seen.push_back(rec->sight);
    } else if (k == "watch") {           // watch j proc kind stream comment
      std::string c = unhex(w[5]);
      Watched x;
      itk::ProcessObject *p = raw[atoi(w[2].c_str())];
      std::ostream &o = os[atoi(w[4].c_str())];
      if (w[3] == "own") { x.size = sizeof(OwnWatcher); x.at = malloc(x.size); x.w = new (x.at) OwnWatcher(p, o, c.c_str()); }
      else { x.size = sizeof(itk::tf::FilterWatcher); x.at = malloc(x.size); x.w = c.empty() ? new (x.at) itk::tf::FilterWatcher(p, o) : new (x.at) itk::tf::FilterWatcher(p, o, c.c_str()); }
      std::fill(c.begin(), c.end(), '#');
      ws[at] = x;
    } else if (k == "drop") {            // the memory is not used for anything else, and nothing is left in it
      Watched x = ws[at];
      x.w->~FilterWatcher();
      memset(x.at, 0xA5, x.size);
      ws.erase(at);
    } else if (k == "name") r = ",\"name\":" + bytes(ws[at].w->GetNameOfClass());
    else if (k == "ev") { if (w[3] == "c") happen((const itk::ProcessObject *)raw[at], w[2]); else happen(raw[at], w[2]); }
    else if (k == "run") {
      int threw = 0;
      try {
        if (Told *t = dynamic_cast<Told *>(raw[at])) { t->script = Words(w.begin() + 2, w.end()); t->Run(); }
        else { raw[at]->Modified(); seen[at]->events.clear(); raw[at]->Update(); }
      } catch (std::exception &) { threw = 1; }
      if (Told *t = dynamic_cast<Told *>(raw[at])) t->SetAbortGenerateData(false);
      r = ",\"threw\":" + num(threw);
    } else if (k == "free") held[at] = 0;
    std::string ev, out, al;
    for (size_t j = 0; at < (int)seen.size() && (k == "run" || k == "ev") && j < seen[at]->events.size(); ++j) ev += (j ? "," : "") + bytes(seen[at]->events[j]);
    for (int j = 0; j < 4; ++j) { std::string t = os[j].str(); out += (j ? "," : "") + bytes(t.substr(before[j].size())); before[j] = t; }
    for (size_t j = 0; j < seen.size(); ++j) al += (j ? "," : "") + num(seen[j]->alive);
    s += (s.empty() ? "" : ",") + std::string("{\"evs\":[") + ev + "],\"out\":[" + out + "],\"alive\":[" + al + "]" + r + "}";
  }
  while (!ws.empty()) { ws.begin()->second.w->~FilterWatcher(); ws.erase(ws.begin()); }
  answer("{\"id\":" + id + ",\"obs\":[" + s + "]}");
}
#endif

int main() {
  OUT = fdopen(dup(1), "w");
  if (getenv("TFDRV_HUNG")) hung = atoi(getenv("TFDRV_HUNG"));
  signal(SIGPIPE, SIG_IGN);
  std::string l;
  while (std::getline(std::cin, l)) {
    Words w = split(l);
    if (w.empty()) continue;
    if (w[0] == "run") { doRun(w[1]); continue; }
    if (w[0] == "session") { doSession(w[1]); continue; }
    if (w[0] == "extend") { doExtended(w[1]); continue; }
    if (w[0] == "tree") { doTree(w[1]); continue; }
#ifdef WITH_ITK
    if (w[0] == "images") { alarm(hung < 3 ? 60 : 5); doImages(w[1]); alarm(0); continue; }
    if (w[0] == "watch") { alarm(hung < 3 ? 60 : 5); doWatch(w[1]); alarm(0); continue; }
#endif
    alarm(hung < 3 ? 20 : 2);
    if (w[0] == "obj") doObjects(w[1]);
    else if (w[0].substr(0, 3) == "b64") doBase64(w);
    else if (w[0] == "diff") { std::ostringstream o; Diff(unhex(w[2]), unhex(w[3]), o); answer("{\"id\":" + w[1] + ",\"d\":" + bytes(o.str()) + "}"); }
    else if (w[0] == "visit") doVisit(w);
    else if (w[0][0] == 'p') doPath(w);
    else answer("{\"error\":\"unknown command\"}");
    alarm(0);
  }
  return 0;
}
