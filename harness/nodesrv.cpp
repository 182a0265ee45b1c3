// The C++ side of a connection: registers the listeners that the environment
// variable PLAN ("connection receive-listeners closed-listeners greetings
// late-listeners")
// asks for. Everything is written to the descriptor LOGFD.
#include <bcl/Socket.h>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>

namespace {
int Fd = -1;
void put(const std::string &S) {
  if (Fd < 0) Fd = std::atoi(std::getenv("LOGFD"));
  for (std::size_t K = 0; K < S.size();) {
    auto N = ::write(Fd, S.data() + K, S.size() - K);
    if (N <= 0) std::abort();
    K += N;
  }
}
std::string bytes(const std::string &S) {
  std::string R = "[";
  for (std::size_t I = 0; I < S.size(); ++I) R += (I ? "," : "") + std::to_string((unsigned char)S[I]);
  return R + "]";
}
void event(const char *K, int C, int L, const std::string &B, bool Err) {
  put(std::string("{\"k\":\"") + K + "\",\"c\":" + std::to_string(C) + ",\"l\":" + std::to_string(L) + ",\"b\":" + bytes(B)
    + ",\"err\":" + (Err ? "true" : "false") + "}\n");
}
// Messages of the server: valid UTF-8, some with zero bytes, some long.
std::string message(int N) {
  if (N % 97 == 96) return std::string(70000, 'y') + "z";
  switch (N % 9) {
  case 0: return "ok";
  case 1: return "";
  case 2: return std::string("a\0b", 3);
  case 3: return "\xD0\xBF\xD1\x80$";
  case 4: return "\xE2\x82\xAC\xF0\x9F\x98\x80\n";
  case 5: return std::string(1, '\0');
  case 6: return std::string(300, 'x') + std::string("\0\r\n", 3);
  case 7: return "\x7F\x01\"\\";
  default: return "\xC2\x80" "end";
  }
}
struct State {
  int C, Count = 0, Late = 0, NR = 0, NC = 0;
  unsigned Magic = 0x5EED;
  const bcl::Socket<std::string> *S;
  State(int C, const bcl::Socket<std::string> *S) : C(C), S(S) {}
  ~State() { Magic = 0; }
  void send() {
    std::string M = message(Count++);
    event("send", C, 0, M, false);
    S->send(M);
  }
};
}

namespace {
using Ref = std::shared_ptr<State>;
void closed(const Ref &St) {
  int L = ++St->NC;
  St->S->closed([St, L](bool Err) {
    if (St->Magic != 0x5EED) std::abort();
    event("closed", St->C, L, "", Err);
    if (L % 2) St->send();
    if (St->Magic != 0x5EED) std::abort();
  });
}
void receive(const Ref &St) {
  int L = ++St->NR;
  St->S->receive([St, L](const std::string &M) {
    if (St->Magic != 0x5EED) std::abort();
    event("recv", St->C, L, M, false);
    // Listeners which are registered while another one is called.
    for (; St->Late; --St->Late) { receive(St); closed(St); }
    // The first listener answers, a later one sends two messages.
    for (int K = 0; K < (L < 4 ? L : 1); ++K) St->send();
  });
}
}

namespace bcl {
template<> void createServer(const Socket<std::string> *S) {
  int C, NR, NC, G, Late;
  std::istringstream In(std::getenv("PLAN"));
  In >> C >> NR >> NC >> G >> Late;
  auto St = std::make_shared<State>(C, S);
  St->Count = G;
  St->Late = Late;
  event("server", C, 0, "", false);
  while (NR--) receive(St);
  while (NC--) closed(St);
  for (int K = 0; K < G % 3; ++K) St->send();
}
}
