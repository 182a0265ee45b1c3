// Explores schedules of bcl::IntrusiveConnection. The peer (the thread which
// delivers received data and the end of a connection) and the server function
// follow a script; everything observable is logged.
// Input line:
//   id delimiter peer-script server-script bound max-exec random-count seed spurious
// peer script:   comma-separated; hex bytes of a chunk, or C (connection closed)
// server script: A answer echo, E answer with nothing, J answer REJECT,
//                L answer with a long text, * answer until false, M move the
//                connection into another object, S use a moved-from object, Y yield,
//                F answer once more after a false, W answer after a long time, Z idle
// peer script, too: Z idle. id t...: two connections at a time, scripts separated by /
// Output: each distinct log as {"id":..,"t":[...]}, then {"id":..,"exec":..}
#include "vsched.h"
#include <bcl/IntrusiveConnection.h>
#include <iostream>
#include <memory>
#include <sstream>

using bcl::IntrusiveConnection;

static std::string bytes(const std::string &S) {
  std::string R = "[";
  for (size_t I = 0; I < S.size(); ++I) {
    if (I) R += ",";
    R += std::to_string(int((unsigned char)S[I]));
  }
  return R + "]";
}
static void ev(int S, const std::string &E, const std::string &Rest = "") {
  sched::event("{\"s\":" + std::to_string(S) + ",\"e\":\"" + E + "\"" + Rest + "}");
}

struct FakeSocket : bcl::Socket<std::string> {
  int Id;
  mutable std::vector<ReceiveCallback> R;
  mutable std::vector<ClosedCallback> C;
  mutable bool Dead = false;
  explicit FakeSocket(int I) : Id(I) {}
  void send(const std::string &M) const override {
    if (Dead) sched::fail("send() on a closed socket");
    ev(Id, "send", ",\"m\":" + bytes(M));
    sched::point("send");
  }
  void receive(const ReceiveCallback &F) const override { R.push_back(F); }
  void closed(const ClosedCallback &F) const override { C.push_back(F); }
};

static std::string unhex(const std::string &H) {
  std::string R;
  for (size_t I = 0; I + 1 < H.size(); I += 2)
    R += char(std::stoi(H.substr(I, 2), nullptr, 16));
  return R;
}

static bool answerOne(IntrusiveConnection &C, int Id, char Kind, char Delim) {
  bool Called = false;
  ev(Id, "answer");
  sched::point("answer");
  bool R = C.answer([&](const std::string &Q) -> std::string {
    Called = true;
    std::string P;
    if (Kind == 'A' || Kind == '*' || Kind == 'W') P = "r" + Q;
    else if (Kind == 'J') P = "REJECT";
    else if (Kind == 'L') P = std::string(40, 'x') + Delim + std::string(1, '\0') + "y" + Q;
    ev(Id, "handle", ",\"q\":" + bytes(Q) + ",\"p\":" + bytes(P));
    if (Kind == 'W') sched::idle("slow handler");
    sched::point("handler");
    return P;
  });
  ev(Id, "answered", std::string(",\"r\":") + (R ? "true" : "false"));
  sched::point("answered");
  return R;
}

static void server(IntrusiveConnection C, int Id, std::string Script, char Delim) {
  auto P = std::make_unique<IntrusiveConnection>(std::move(C));
  ev(Id, "start");
  bool Alive = true;
  for (char K : Script) {
    if (!Alive && K != 'F' && K != 'M' && K != 'S') continue;
    switch (K) {
    case 'A': case 'E': case 'J': case 'L': case 'W': Alive = answerOne(*P, Id, K, Delim); break;
    case '*': while ((Alive = answerOne(*P, Id, K, Delim))) {} break;
    case 'F': answerOne(*P, Id, 'A', Delim); break;
    case 'M': P = std::make_unique<IntrusiveConnection>(std::move(*P)); break;
    case 'S': {
      bool R = C.answer([&](const std::string &) -> std::string { sched::fail("handler called through a moved-from connection"); });
      if (R) sched::fail("answer() of a moved-from connection returned true");
      break;
    }
    case 'Y': sched::point("yield"); break;
    case 'Z': sched::idle("idle server"); break;
    }
  }
  ev(Id, "drop");
  sched::point("drop");
  P.reset();
  ev(Id, "dropped");
}

static void peer(FakeSocket &S, const std::string &Script) {
  std::istringstream In(Script);
  std::string Item;
  while (std::getline(In, Item, ',')) {
    if (Item == "C") {
      ev(S.Id, "close");
      S.Dead = true;
      sched::point("close");
      for (auto &F : S.C) F(true);
      ev(S.Id, "closed");
    } else if (Item == "Z") { sched::idle("idle client");
    } else if (Item == "-") {
    } else {
      auto D = unhex(Item);
      ev(S.Id, "recv", ",\"c\":" + bytes(D));
      sched::point("recv");
      for (auto &F : S.R) F(D);
      ev(S.Id, "recvd");
    }
  }
}

// Two connections; the first one is replaced by the second in a move assignment.
static void pairScenario(const std::string &P, const std::string &Script, char Delim) {
  FakeSocket S1(1), S2(2);
  std::unique_ptr<IntrusiveConnection> Slot[3];
  auto Store = [&Slot](IntrusiveConnection C, int I) {
    ev(I, "start");
    Slot[I] = std::make_unique<IntrusiveConnection>(std::move(C));
    sched::point("stored");
  };
  IntrusiveConnection::connect(&S1, Delim, Store, 1);
  IntrusiveConnection::connect(&S2, Delim, Store, 2);
  std::thread W([&] {
    sched::waitUntil([&] { return Slot[1] && Slot[2]; }, "both connections");
    ev(1, "drop");
    sched::point("assign");
    IntrusiveConnection &R = (*Slot[1] = std::move(*Slot[2]));
    if (&R != Slot[1].get()) sched::fail("move assignment returned something else");
    ev(1, "dropped");
    IntrusiveConnection &Same = *Slot[1];
    Same = std::move(*Slot[1]);        // self move keeps the connection
    Slot[2].reset();                   // moved-from: must not close connection 2
    bool Alive = true;
    for (char K : Script) {
      if (!Alive) break;
      if (K == '*') { while ((Alive = answerOne(*Slot[1], 2, K, Delim))) {} }
      else Alive = answerOne(*Slot[1], 2, K, Delim);
    }
    ev(2, "drop");
    sched::point("drop");
    Slot[1].reset();
    ev(2, "dropped");
  });
  std::thread P1([&] { peer(S1, P); });
  std::thread P2([&] { peer(S2, P); });
  W.join();
  P1.join();
  P2.join();
  sched::waitUntil([] { return sched::liveThreads() == 1; }, "waiting for all threads to finish");
}

// Two connections which are used at the same time.
static void bothScenario(const std::string &P, const std::string &Script, char Delim) {
  FakeSocket S1(1), S2(2);
  auto Part = [](const std::string &S, int I) {
    auto K = S.find('/');
    std::string R = K == std::string::npos ? S : I == 1 ? S.substr(0, K) : S.substr(K + 1);
    return R == "-" ? std::string() : R;
  };
  auto Client = [&](FakeSocket &S) {
    IntrusiveConnection::connect(&S, Delim, server, S.Id, Part(Script, S.Id), Delim);
    peer(S, Part(P, S.Id));
  };
  std::thread P1([&] { Client(S1); });
  std::thread P2([&] { Client(S2); });
  P1.join();
  P2.join();
  sched::waitUntil([] { return sched::liveThreads() == 1; }, "waiting for all threads to finish");
}

int main() {
  sched::init();
  std::string Line;
  while (std::getline(std::cin, Line)) {
    std::istringstream In(Line);
    std::string Id, Peer, Script;
    int Delim, Bound, Spur;
    long Max, Rnd;
    unsigned Seed;
    In >> Id >> Delim >> Peer >> Script >> Bound >> Max >> Rnd >> Seed >> Spur;
    char D = char(Delim);
    sched::ScenarioName = Line;
    sched::SpuriousBudget = Spur;
    bool Both = Id[0] == 't', Pair = Id[0] == 'p' || Both;
    auto Body = [&] {
      if (Both) return bothScenario(Peer, Script, D);
      if (Pair) return pairScenario(Peer, Script == "-" ? "" : Script, D);
      FakeSocket S(1);
      IntrusiveConnection::connect(&S, D, server, 1, Script == "-" ? std::string() : Script, D);
      peer(S, Peer);
    };
    std::set<std::string> Seen;
    auto After = [&] {
      for (int K = 1; K <= (Pair ? 2 : 1); ++K) {
        std::string T, Pre = "{\"s\":" + std::to_string(K) + ",";
        for (auto &E : sched::Log)
          if (E.compare(0, Pre.size(), Pre) == 0) T += (T.empty() ? "" : ",") + E;
        if (Seen.insert(T).second)
          std::cout << "{\"id\":\"" << Id << "\",\"t\":[" << T << "]}\n";
      }
    };
    long Ex = 0;
    bool Complete = true;
    if (Max > 0) {
      auto S = sched::explore(Body, Bound, Max, After);
      Ex += S.Executions;
      Complete = S.Complete;
    }
    if (Rnd > 0) Ex += sched::randomly(Body, Rnd, Seed, After).Executions;
    std::cout << "{\"id\":\"" << Id << "\",\"exec\":" << Ex << ",\"complete\":" << (Complete ? "true" : "false")
              << ",\"points\":" << sched::Points << ",\"distinct\":" << Seen.size() << "}" << std::endl;
  }
  sched::finish();
}
