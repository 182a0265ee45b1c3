// Executes operations on bcl::RedirectIO. Arguments: files, descriptors, objects,
// scratch folder. Input per line: "op i j x h m b n ; ...". Descriptors are
// 100, 101, ..., files D/f1, D/f2, ..., the path 0 lies in a missing folder.
// The n-th library call inside an operation of an object fails with EIO. In a line
// that starts with "mute" the messages about errors cannot be formatted either.
#include <bcl/RedirectIO.h>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using bcl::RedirectIO;
static std::string Dir;
static std::string pathOf(int X) { return X < 0 ? Dir + "/p" : X ? Dir + "/f" + std::to_string(X) : Dir + "/missing/f"; }
static int fdOf(int H) { return H ? 99 + H : -1; }
static int Calls, FaultAt;
static bool Mute;
static const char *Fired = "";
// Whether this call has to fail; C: it closes something.
static bool fault(bool C = false) {
  if (!FaultAt || ++Calls != FaultAt) return false;
  Fired = C ? "close" : "other";
  errno = EIO;
  return true;
}
extern "C" {
int __wrap_snprintf(char *B, size_t N, const char *F, ...) {
  if (Mute && FaultAt) { errno = ENOMEM; return -1; }
  va_list A;
  va_start(A, F);
  int R = vsnprintf(B, N, F, A);
  va_end(A);
  return R;
}
#define WRAP(T, Name, Params, Args, Bad) T __real_##Name Params; T __wrap_##Name Params { if (fault()) return Bad; return __real_##Name Args; }
#define WRAPC(Name, P) int __real_##Name(P); int __wrap_##Name(P X) { if (!fault(true)) return __real_##Name(X); __real_##Name(X); errno = EIO; return -1; }
WRAP(FILE *, fopen, (const char *A, const char *B), (A, B), nullptr)
WRAP(FILE *, fopen64, (const char *A, const char *B), (A, B), nullptr)
WRAP(FILE *, fdopen, (int A, const char *B), (A, B), nullptr)
WRAP(int, fflush, (FILE *F), (F), EOF)
WRAP(int, fgetc, (FILE *F), (F), EOF)
WRAP(int, getc, (FILE *F), (F), EOF)
WRAP(long, ftell, (FILE *F), (F), -1)
WRAP(off_t, ftello, (FILE *F), (F), -1)
WRAP(int, fseek, (FILE *F, long O, int W), (F, O, W), -1)
WRAP(int, fseeko, (FILE *F, off_t O, int W), (F, O, W), -1)
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *B, size_t S, size_t N, FILE *F) { // the end of a file has been read already: nothing can fail
  return !feof(F) && fault() ? 0 : __real_fread(B, S, N, F);
}
WRAP(int, dup2, (int A, int B), (A, B), -1)
WRAP(off_t, lseek, (int F, off_t O, int W), (F, O, W), -1)
WRAP(ssize_t, read, (int F, void *B, size_t N), (F, B, N), -1)
WRAPC(fclose, FILE *)
WRAPC(close, int)
}
// What a descriptor is redirected to: "[file,offset]".
static std::string target(int H, int NF) {
  struct stat A, B;
  if (fstat(fdOf(H), &A)) return "[0,0]";
  for (int Y = -1; Y <= NF; ++Y)
    if (Y && !stat(pathOf(Y).c_str(), &B) && A.st_dev == B.st_dev && A.st_ino == B.st_ino)
      return "[" + std::to_string(Y) + "," + std::to_string(Y > 0 ? (long)lseek(fdOf(H), 0, SEEK_CUR) : 0) + "]";
  return "[99,0]";
}
static int openFds() {
  int N = 0;
  DIR *D = opendir("/proc/self/fd");
  while (auto *E = readdir(D)) if (E->d_name[0] != '.') ++N;
  closedir(D);
  return N;
}
static std::string rle(const std::string &S) {
  std::ostringstream O;
  O << '[';
  for (size_t I = 0; I < S.size();) {
    size_t J = I;
    while (J < S.size() && S[J] == S[I]) ++J;
    O << (I ? "," : "") << '[' << (int)(unsigned char)S[I] << ',' << J - I << ']';
    I = J;
  }
  return O.str() + "]";
}
static bool load(const std::string &P, std::string &S) {
  int F = open(P.c_str(), O_RDONLY);
  if (F < 0) return false;
  char B[65536];
  ssize_t N;
  while ((N = read(F, B, sizeof B)) > 0) S.append(B, N);
  close(F);
  return true;
}
static RedirectIO make(int I, int X, int H, const std::string &M) {
  return M == "w" && I % 2 ? RedirectIO(fdOf(H), pathOf(X))
    : RedirectIO(fdOf(H), pathOf(X), M == "w" ? RedirectIO::Mode::Rewrite
                 : M == "a" ? RedirectIO::Mode::Append : RedirectIO::Mode::Read);
}
int main(int Argc, char **Argv) {
  int NF = atoi(Argv[1]), NH = atoi(Argv[2]), NO = atoi(Argv[3]);
  {
    Dir = std::string(Argv[4]) + "/r" + std::to_string(getpid());
    if (mkdir(Dir.c_str(), 0700) || mkfifo(pathOf(-1).c_str(), 0600)) { perror("mkdir"); return 3; }
  }
  std::string Line;
  while (std::getline(std::cin, Line)) {
    int Base = openFds();
    struct Slot { alignas(RedirectIO) char B[sizeof(RedirectIO)]; };
    std::vector<Slot> Mem(NO + 1);
    auto at = [&](int I) { return reinterpret_cast<RedirectIO *>(Mem[I].B); };
    std::vector<char> Moved(NO + 1, 0);
    for (int I = 1; I <= NO; ++I) new (at(I)) RedirectIO();
    std::istringstream In(Line);
    std::string Op, M, End, Out = "[";
    int I, J, X, H, B, N;
    bool First = true;
    Mute = Line.compare(0, 5, "mute ") == 0;
    if (Mute) In >> Op;
    while (In >> Op >> I >> J >> X >> H >> M >> B >> N >> End) {
      std::string R = "0";
      Fired = "";
      Calls = 0;
      bool Obj = Op != "put" && Op != "get" && Op != "close";
      FaultAt = Obj ? Mute && !N ? 1000000 : N : 0;
      if (Op == "open") {
        *at(I) = make(I, X, H, M);
        Moved[I] = 0;
      } else if (Op == "put") {
        std::string S(N, (char)B);
        size_t P = 0;
        while (P < S.size()) {
          ssize_t W = write(fdOf(H), S.data() + P, S.size() - P);
          if (W <= 0) { R = "\"write failed\""; break; }
          P += W;
        }
      } else if (Op == "get") {
        std::string S(N, 0);
        ssize_t W = read(fdOf(H), &S[0], N);
        S.resize(W < 0 ? 0 : W);
        R = rle(S);
      } else if (Op == "isdiff") R = at(I)->isDiff() ? "true" : "false";
      else if (Op == "diff") R = rle(at(I)->diff());
      else if (Op == "setpos") R = at(I)->setDiffPos() ? "true" : "false";
      else if (Op == "reset") at(I)->resetDiffPos();
      else if (Op == "move") {
        RedirectIO &From = *at(J);
        *at(I) = std::move(From);
        if (I != J) { Moved[I] = Moved[J]; Moved[J] = 1; }
      } else if (Op == "new") {
        at(I)->~RedirectIO();
        new (at(I)) RedirectIO(std::move(*at(J)));
        Moved[I] = Moved[J]; Moved[J] = 1;
      } else if (Op == "drop") {
        at(I)->~RedirectIO();
        new (at(I)) RedirectIO();
        Moved[I] = 0;
      } else if (Op == "close") close(fdOf(H));
      else return 4;
      FaultAt = 0;
      std::ostringstream O;
      O << "{\"o\":{\"op\":\"" << Op << "\",\"i\":" << I << ",\"j\":" << J << ",\"x\":" << X << ",\"h\":" << H
        << ",\"m\":\"" << M << "\",\"b\":" << B << ",\"n\":" << N << "},\"mute\":" << (Mute ? "true" : "false") << ",\"r\":" << R << ",\"fault\":\"" << Fired << "\",\"fds\":" << openFds() - Base
        << ",\"obj\":[";
      for (int K = 1; K <= NO; ++K) {
        O << (K > 1 ? "," : "");
        if (Moved[K]) { O << "0"; continue; }
        int Nm = at(K)->fileName().empty() ? -3 : -2;
        for (int Y = -1; Y <= NF; ++Y) if (at(K)->fileName() == pathOf(Y)) Nm = Y;
        O << "{\"may\":" << (at(K)->mayRedirected() ? "true" : "false") << ",\"err\":"
          << (at(K)->hasErrors() ? "true" : "false") << ",\"nm\":" << Nm << ",\"er\":[";
        if (at(K)->mayRedirected()) {
          bool F = true;
          for (auto *E : at(K)->errors()) {
            std::string S(E), Prefix = std::string(at(K)->errors().getKind()) + " C";
            int Code = -1;
            if (S.compare(0, Prefix.size(), Prefix) == 0 && S.find(at(K)->fileName()) != S.npos)
              Code = atoi(S.c_str() + Prefix.size());
            O << (F ? "" : ",") << Code;
            F = false;
          }
        }
        O << "]}";
      }
      O << "],\"fs\":[";
      for (int Y = 1; Y <= NF; ++Y) {
        std::string S;
        bool Ex = load(pathOf(Y), S);
        O << (Y > 1 ? "," : "") << "{\"ex\":" << (Ex ? "true" : "false") << ",\"c\":" << rle(S) << "}";
      }
      O << "],\"at\":[";
      for (int K = 1; K <= NH; ++K) O << (K > 1 ? "," : "") << target(K, NF);
      O << "]}";
      Out += (First ? "" : ",") + O.str();
      First = false;
    }
    for (int K = 1; K <= NO; ++K) at(K)->~RedirectIO();
    for (int K = 1; K <= NH; ++K) close(fdOf(K));
    for (int Y = 1; Y <= NF; ++Y) unlink(pathOf(Y).c_str());
    if (openFds() != Base) { std::cerr << "descriptors leak\n"; return 5; }
    std::cout << Out << "]\n" << std::flush;
  }
  unlink(pathOf(-1).c_str());
  rmdir(Dir.c_str());
}
