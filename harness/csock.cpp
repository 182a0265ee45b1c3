// Runs bcl::net::startServer (the real CSocket.cpp) on a fake network under the
// controlled scheduler. The socket calls are defined here and follow a script;
// every call, status event and listener invocation is logged.
// Input line (fields separated by blanks):
//   id addr port max bufsize setup closeok accepts conns bound maxexec rnd seed
// setup:   6 characters, 1 ok / 0 failure of: host socket option bind name listen
// closeok: 1/0 result of closing the listening socket
// accepts: e.g. 1,Z,2  (connection numbers in order of arrival, Z: accept fails)
// conns:   connection 1;connection 2;...  each  flags:recv:msgs:sends:L
//   flags  getsockname ok, close ok, a thread can be created (e.g. 111, the last one may be left out)
//   recv   hex bytes | E end of stream | X error | W<k> silent until connection k has ended, comma separated
//   msgs   g<hex> greeting, e echo every chunk, m<hex> reply to every chunk, r, c
//          add another receive (closed) listener at every chunk (up to 5), d the first
//          closed listener adds another one,
//          s the first closed listener tries to send, -
//   sends  A all | a number of bytes | X failure, comma separated (then A)
//   L      number of receive listeners and of closed listeners (two digits)
#include "vsched.h"
#include <arpa/inet.h>
#include <bcl/CSocket.h>
#include <csignal>
#include <iostream>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <sstream>
#include <sys/socket.h>
#include <sys/syscall.h>

using namespace bcl;

static std::string bytes(const char *D, size_t N) {
  std::string R = "[";
  for (size_t I = 0; I < N; ++I) {
    if (I) R += ",";
    R += std::to_string(int((unsigned char)D[I]));
  }
  return R + "]";
}
static std::string bytes(const std::string &S) { return bytes(S.data(), S.size()); }
static std::string unhex(const std::string &H) {
  std::string R;
  for (size_t I = 0; I + 1 < H.size(); I += 2) R += char(std::stoi(H.substr(I, 2), nullptr, 16));
  return R;
}
static std::vector<std::string> split(const std::string &S, char D) {
  std::vector<std::string> R;
  std::istringstream In(S);
  std::string X;
  while (std::getline(In, X, D)) R.push_back(X);
  return R;
}
static const char *B(bool X) { return X ? "true" : "false"; }

struct ConnScript {
  bool NameOk = true, CloseOk = true, ThreadOk = true;
  std::vector<std::string> Recv, Msgs, Sends;
  int L = 1, C = 1;
  // run state
  std::string Rest;
  size_t NextRecv = 0, NextSend = 0;
};
struct Scenario {
  std::string Addr;
  int Port = 0;
  size_t Max = 0, Buf = 16;
  std::string Setup;
  bool CloseOk = true;
  std::vector<std::string> Accepts;
  std::vector<ConnScript> Conns;
};
static Scenario Proto, S;
static std::map<int, int> Fds;           // fake descriptor -> connection (0: listening)
static size_t NextAccept = 0;
// The connection which a thread to be created is for.
static int LastAccepted = 0;
static int Finished = 0, Accepted = 0;
static std::set<int> Ended;
static struct in_addr BoundAddr;
static int BoundPort = 0;
static std::map<int, int> ServedBy;      // thread -> connection

static int th() { return sched::Self ? sched::Self->Id : -1; }
static void ev(int K, const std::string &E, const std::string &Rest = "") {
  sched::event("{\"k\":" + std::to_string(K) + ",\"e\":\"" + E + "\",\"th\":" + std::to_string(th()) + Rest + "}");
}
static int connOf(int Fd) {
  auto I = Fds.find(Fd);
  if (I == Fds.end()) {
    ev(-1, "badfd", ",\"fd\":" + std::to_string(Fd));
    return -1;
  }
  return I->second;
}
static int newFd(int K) {
  int F = 1000;
  while (Fds.count(F)) ++F;
  Fds[F] = K;
  return F;
}
struct Stop {};

extern "C" {
static struct hostent FakeHost;
static struct in_addr FakeAddr;
static char *FakeList[2];
struct hostent *gethostbyname(const char *N) {
  sched::point("gethostbyname");
  bool Ok = S.Setup[0] == '1';
  ev(0, "host", std::string(",\"name\":\"") + N + "\",\"ok\":" + B(Ok));
  if (!Ok) return nullptr;
  if (!inet_aton(N, &FakeAddr)) inet_aton("10.0.0.1", &FakeAddr);
  FakeList[0] = reinterpret_cast<char *>(&FakeAddr);
  FakeList[1] = nullptr;
  FakeHost.h_addrtype = AF_INET;
  FakeHost.h_length = 4;
  FakeHost.h_addr_list = FakeList;
  return &FakeHost;
}
int socket(int Dom, int Type, int) {
  sched::point("socket");
  bool Ok = S.Setup[1] == '1';
  ev(0, "socket", std::string(",\"tcp\":") + B(Dom == AF_INET && (Type & 0xf) == SOCK_STREAM) + ",\"ok\":" + B(Ok));
  if (!Ok) { errno = EMFILE; return -1; }
  return newFd(0);
}
int setsockopt(int Fd, int Level, int Name, const void *V, socklen_t) {
  sched::point("setsockopt");
  int K = connOf(Fd);
  bool Reuse = Level == SOL_SOCKET && Name == SO_REUSEADDR && *static_cast<const int *>(V);
  bool Ok = !(K == 0 && Reuse) || S.Setup[2] == '1';
  if (K == 0 && Reuse) ev(0, "option", std::string(",\"ok\":") + B(Ok));
  if (!Ok) { errno = EINVAL; return -1; }
  return 0;
}
int bind(int Fd, const struct sockaddr *A, socklen_t) {
  sched::point("bind");
  int K = connOf(Fd);
  bool Ok = S.Setup[3] == '1';
  auto *I = reinterpret_cast<const struct sockaddr_in *>(A);
  BoundAddr = I->sin_addr;
  BoundPort = ntohs(I->sin_port);
  ev(K, "bind", std::string(",\"addr\":\"") + inet_ntoa(I->sin_addr) + "\",\"port\":" + std::to_string(BoundPort) +
     ",\"inet\":" + B(I->sin_family == AF_INET) + ",\"ok\":" + B(Ok));
  if (BoundPort == 0) BoundPort = 4999;
  if (!Ok) { errno = EADDRINUSE; return -1; }
  return 0;
}
int getsockname(int Fd, struct sockaddr *A, socklen_t *) {
  sched::point("getsockname");
  int K = connOf(Fd);
  auto *I = reinterpret_cast<struct sockaddr_in *>(A);
  bool Ok = K < 0 ? false : K == 0 ? S.Setup[4] == '1' : S.Conns[K - 1].NameOk;
  I->sin_family = AF_INET;
  I->sin_port = htons(BoundPort);
  I->sin_addr = BoundAddr;
  if (K > 0) inet_aton(("10.0.1." + std::to_string(K)).c_str(), &I->sin_addr);
  ev(K, "name", std::string(",\"addr\":\"") + (Ok ? inet_ntoa(I->sin_addr) : "") + "\",\"port\":" +
     std::to_string(Ok ? BoundPort : 0) + ",\"ok\":" + B(Ok));
  if (!Ok) { std::memset(A, 0x5a, sizeof(*I)); errno = ENOBUFS; return -1; }
  return 0;
}
int listen(int Fd, int) {
  sched::point("listen");
  int K = connOf(Fd);
  bool Ok = S.Setup[5] == '1';
  ev(K, "listen", std::string(",\"ok\":") + B(Ok));
  if (!Ok) { errno = EADDRINUSE; return -1; }
  return 0;
}
static int doAccept(int Fd, struct sockaddr *A) {
  sched::point("accept");
  int L = connOf(Fd);
  if (L != 0) sched::fail("accept() on a socket which does not listen");
  if (NextAccept >= S.Accepts.size()) {
    sched::waitUntil([] { return Finished == Accepted; }, "accept: no more clients");
    ev(0, "stop");
    errno = EINTR;
    return -1;
  }
  auto Item = S.Accepts[NextAccept++];
  if (Item == "Z") {
    ev(0, "accept", ",\"c\":0,\"ca\":\"\",\"cp\":0");
    errno = ECONNABORTED;
    return -1;
  }
  int K = std::stoi(Item);
  ++Accepted;
  LastAccepted = K;
  int F = newFd(K);
  auto *I = reinterpret_cast<struct sockaddr_in *>(A);
  I->sin_family = AF_INET;
  I->sin_port = htons(5000 + K);
  inet_aton(("10.2.0." + std::to_string(K)).c_str(), &I->sin_addr);
  ev(0, "accept", ",\"c\":" + std::to_string(K) + ",\"ca\":\"10.2.0." + std::to_string(K) + "\",\"cp\":" +
     std::to_string(5000 + K));
  return F;
}
int accept(int Fd, struct sockaddr *A, socklen_t *) { return doAccept(Fd, A); }
int accept4(int Fd, struct sockaddr *A, socklen_t *, int) { return doAccept(Fd, A); }
ssize_t recv(int Fd, void *Buf, size_t N, int) {
  sched::point("recv");
  int K = connOf(Fd);
  if (K <= 0) { errno = EBADF; return -1; }
  auto &C = S.Conns[K - 1];
  while (C.Rest.empty() && C.NextRecv < C.Recv.size() && C.Recv[C.NextRecv][0] == 'W') {
    int O = std::stoi(C.Recv[C.NextRecv++].substr(1));
    sched::waitUntil([O] { return Ended.count(O) != 0; }, "recv: the client is silent");
  }
  if (C.Rest.empty() && C.NextRecv < C.Recv.size()) {
    auto &I = C.Recv[C.NextRecv];
    if (I == "E" || I == "X") {
      ev(K, "recv", std::string(",\"r\":\"") + (I == "E" ? "eof" : "err") + "\",\"d\":[]");
      if (I == "E") return 0;
      ++C.NextRecv;
      errno = ECONNRESET;
      return -1;
    }
    C.Rest = unhex(I);
    ++C.NextRecv;
  }
  if (C.Rest.empty()) {
    ev(K, "recv", ",\"r\":\"eof\",\"d\":[]");
    return 0;
  }
  size_t M = std::min(N, C.Rest.size());
  std::memcpy(Buf, C.Rest.data(), M);
  ev(K, "recv", ",\"r\":\"data\",\"d\":" + bytes(C.Rest.data(), M));
  C.Rest.erase(0, M);
  return ssize_t(M);
}
ssize_t send(int Fd, const void *D, size_t N, int Flags) {
  sched::point("send");
  int K = connOf(Fd);
  if (K <= 0) { errno = EBADF; return -1; }
  auto &C = S.Conns[K - 1];
  std::string R = C.NextSend < C.Sends.size() ? C.Sends[C.NextSend] : "A";
  ++C.NextSend;
  std::string Pre = ",\"d\":" + bytes(static_cast<const char *>(D), N);
  if (R == "X") {
    struct sigaction SA;
    sigaction(SIGPIPE, nullptr, &SA);
    bool Kills = !(Flags & MSG_NOSIGNAL) && SA.sa_handler == SIG_DFL;
    ev(K, Kills ? "sigpipe" : "send", Pre + ",\"n\":-1");
    errno = EPIPE;
    return -1;
  }
  size_t M = R == "A" ? N : std::min(N, size_t(std::stoi(R)));
  ev(K, "send", Pre + ",\"n\":" + std::to_string(M));
  return ssize_t(M);
}
int shutdown(int Fd, int) { sched::point("shutdown"); connOf(Fd); return 0; }
int close(int Fd) {
  if (!sched::on() || Fd < 1000) return int(syscall(SYS_close, Fd));
  sched::point("close");
  int K = connOf(Fd);
  if (K < 0) { errno = EBADF; return -1; }
  bool Ok = K == 0 ? S.CloseOk : S.Conns[K - 1].CloseOk;
  ev(K, "close", std::string(",\"ok\":") + B(Ok));
  Fds.erase(Fd);
  if (!Ok) { errno = EIO; return -1; }
  return 0;
}
}

static const char *statusName(net::SocketStatus X) {
  static const char *N[] = {"UnknownError", "InitializeError", "HostnameError", "ServerAddressError", "CreateError",
    "OptionError", "BindError", "ListenError", "AcceptError", "ReceiveError", "SendError", "CloseError", "Listen",
    "Accept", "Receive", "Send", "Close"};
  auto I = size_t(X);
  return I < sizeof(N) / sizeof(*N) ? N[I] : "?";
}

static void onStatus(net::SocketStatus St, const net::Connection &C) {
  int K = C.getClientPort() >= 5000 ? C.getClientPort() - 5000 : 0;
  bool StopNow = St == net::SocketStatus::AcceptError && NextAccept >= S.Accepts.size() &&
                 !sched::Log.empty() && sched::Log.back().find("\"stop\"") != std::string::npos;
  ev(K, "on", std::string(",\"st\":\"") + statusName(St) + "\",\"sa\":\"" + C.getServerAddress() + "\",\"sp\":" +
     std::to_string(C.getServerPort()) + ",\"ca\":\"" + C.getClientAddress() + "\",\"cp\":" +
     std::to_string(C.getClientPort()) + ",\"act\":" + B(C.isActive()));
  sched::point("status handler");
  if (StopNow) throw Stop();
}

static thread_local int CurConn = 0;
static size_t ServeCount = 0;

static void sendMsg(const Socket<std::string> *Sock, int K, const std::string &M) {
  ev(K, "msg", ",\"d\":" + bytes(M));
  Sock->send(M);
  ev(K, "msgret");
  sched::point("message sent");
}

static std::function<void(bool)> closedListener(const Socket<std::string> *Sock, int K, int L) {
  return [Sock, K, L](bool V) {
    ev(K, "closedcb", ",\"l\":" + std::to_string(L) + ",\"v\":" + B(V));
    sched::point("closed listener");
    if (L == 1)
      for (auto &M : S.Conns[K - 1].Msgs)
        if (M[0] == 'd') {
          ev(K, "register", ",\"kind\":\"late\"");
          Sock->closed([K](bool V) { ev(K, "latecb", std::string(",\"v\":") + B(V)); });
        } else if (M[0] == 's') sendMsg(Sock, K, "late");
    sched::point("closed listener");
    if (L == S.Conns[K - 1].C) {
      ev(K, "fin");
      Ended.insert(K);
      ++Finished;
    }
  };
}

// The connection is not known to createServer(): it is the one whose thread this
// is; the order of serving is taken from a queue filled by on(Accept).
static std::vector<int> *Pending = nullptr;

template<> void bcl::createServer<std::string>(const Socket<std::string> *Sock) {
  // find the connection by what the server was told last for this thread:
  // the harness names it by sending order, see below
  int K = ServedBy.count(th()) ? ServedBy[th()] : 0;
  if (!K) {
    // threads start in any order; identify by creation order of threads
    K = (*Pending)[th() - 1];
    ServedBy[th()] = K;
  }
  auto &C = S.Conns[K - 1];
  ev(K, "serve", ",\"L\":" + std::to_string(C.L) + ",\"C\":" + std::to_string(C.C));
  for (int L = 1; L <= C.L; ++L)
    Sock->receive([Sock, K, L](const std::string &D) {
      ev(K, "deliver", ",\"l\":" + std::to_string(L) + ",\"d\":" + bytes(D));
      sched::point("deliver");
      if (L == 1)
        for (auto &M : S.Conns[K - 1].Msgs) {
          if (M[0] == 'e') sendMsg(Sock, K, D);
          if (M[0] == 'm') sendMsg(Sock, K, unhex(M.substr(1)));
          if (M[0] == 'r' && S.Conns[K - 1].L < 6) {
            int N = ++S.Conns[K - 1].L;
            ev(K, "register", ",\"kind\":\"receive\"");
            Sock->receive([K, N](const std::string &D) {
              ev(K, "deliver", ",\"l\":" + std::to_string(N) + ",\"d\":" + bytes(D));
              sched::point("deliver");
              ev(K, "delivered", ",\"l\":" + std::to_string(N));
            });
          }
          if (M[0] == 'c' && S.Conns[K - 1].C < 6) {
            ++S.Conns[K - 1].C;
            ev(K, "register", ",\"kind\":\"closed\"");
            Sock->closed(closedListener(Sock, K, S.Conns[K - 1].C));
          }
        }
      ev(K, "delivered", ",\"l\":" + std::to_string(L));
    });
  for (int L = 1; L <= C.C; ++L) Sock->closed(closedListener(Sock, K, L));
  for (auto &M : C.Msgs)
    if (M[0] == 'g') sendMsg(Sock, K, unhex(M.substr(1)));
  ev(K, "served");
  sched::point("served");
}

static bool refuseThread() {
  if (!LastAccepted || S.Conns[LastAccepted - 1].ThreadOk) return false;
  ev(LastAccepted, "nothread");
  return true;
}

int main() {
  sched::init();
  sched::RefuseThread = refuseThread;
  std::string Line;
  while (std::getline(std::cin, Line)) {
    std::istringstream In(Line);
    std::string Id, Acc, Cs;
    int Bound, CloseOk;
    long Max, Rnd;
    unsigned Seed;
    Proto = Scenario();
    In >> Id >> Proto.Addr >> Proto.Port >> Proto.Max >> Proto.Buf >> Proto.Setup >> CloseOk >> Acc >> Cs >> Bound >>
      Max >> Rnd >> Seed;
    Proto.CloseOk = CloseOk;
    if (Proto.Addr == "-") Proto.Addr = "";
    if (Acc != "-") Proto.Accepts = split(Acc, ',');
    if (Cs != "-")
      for (auto &X : split(Cs, ';')) {
        auto F = split(X, ':');
        ConnScript C;
        C.NameOk = F[0][0] == '1';
        C.CloseOk = F[0][1] == '1';
        C.ThreadOk = F[0].size() < 3 || F[0][2] == '1';
        C.Recv = split(F[1], ',');
        if (F[2] != "-") C.Msgs = split(F[2], ',');
        if (F[3] != "-") C.Sends = split(F[3], ',');
        C.L = F[4][0] - '0';
        C.C = F[4][1] - '0';
        Proto.Conns.push_back(C);
      }
    sched::ScenarioName = Line;
    std::vector<int> Pend;
    auto Body = [&] {
      S = Proto;
      Fds.clear();
      NextAccept = 0;
      Finished = Accepted = LastAccepted = 0;
      ServedBy.clear();
      Ended.clear();
      Pend.clear();
      Pending = &Pend;
      for (auto &A : S.Accepts)
        if (A != "Z" && S.Conns[std::stoi(A) - 1].NameOk && S.Conns[std::stoi(A) - 1].ThreadOk)
          Pend.push_back(std::stoi(A));
      // connections without a name or a thread are finished by the server itself
      Finished = 0;
      for (auto &A : S.Accepts)
        if (A != "Z" && !(S.Conns[std::stoi(A) - 1].NameOk && S.Conns[std::stoi(A) - 1].ThreadOk)) ++Finished;
      ev(0, "start");
      bool Stopped = false;
      try {
        net::startServer(S.Addr, S.Port, S.Max, onStatus, S.Buf);
      } catch (Stop &) {
        Stopped = true;
      }
      ev(0, Stopped ? "stopped" : "return");
    };
    std::set<std::string> Seen;
    auto After = [&] {
      std::string T;
      for (auto &E : sched::Log) T += (T.empty() ? "" : ",") + E;
      if (Seen.insert(T).second) std::cout << "{\"id\":\"" << Id << "\",\"t\":[" << T << "]}\n";
    };
    long Ex = 0;
    bool Complete = true;
    if (Max > 0) {
      auto St = sched::explore(Body, Bound, Max, After);
      Ex += St.Executions;
      Complete = St.Complete;
    }
    if (Rnd > 0) Ex += sched::randomly(Body, Rnd, Seed, After).Executions;
    std::cout << "{\"id\":\"" << Id << "\",\"exec\":" << Ex << ",\"complete\":" << B(Complete)
              << ",\"points\":" << sched::Points << ",\"distinct\":" << Seen.size() << "}" << std::endl;
  }
  sched::finish();
}
