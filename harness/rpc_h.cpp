// A server made of the real LSPServer and ports whose methods only probe them.
//   echo(x) -> x;  fail(x) -> error x;  typed({n: int}) -> n
//   later({k}) is answered by the notification release({k, ok, thread})
//   call({tags, nest}): an outgoing call "ask" per tag; its continuation
//     notifies ran({tag, result | error})
//   storm({threads, calls, notes}): calls and notifications by several threads
#include "faults.h"
#include "lspserver/LSPServer.h"
#include "lspserver/Logger.h"
#include <map>
#include <thread>
using namespace lspserver;
using llvm::json::Object;
using llvm::json::Value;

struct Typed { int64_t N; };
static bool fromJSON(const Value &V, Typed &T, llvm::json::Path P) {
  llvm::json::ObjectMapper O(V, P);
  return O && O.map("n", T.N);
}
class Probe : public LSPServer {
  std::map<int64_t, Callback<Value>> Held;
  llvm::unique_function<void(const Value &, Callback<Value>)> Ask = mkOutMethod<Value, Value>("ask");
  llvm::unique_function<void(const Value &)> Ran = mkOutNotifiction<Value>("ran");
  llvm::unique_function<void(const Value &)> Note = mkOutNotifiction<Value>("note");

  void echo(const Value &V, Callback<Value> R) { R(V); }
  void fail(const Value &V, Callback<Value> R) {
    R(llvm::make_error<LSPError>(V.getAsString() ? V.getAsString()->str() : "?", ErrorCode::RequestCancelled));
  }
  void typed(const Typed &T, Callback<Value> R) { R(Value(T.N)); }
  void typedNote(const Typed &T) { Note(Value(T.N)); }
  void later(const Value &V, Callback<Value> R) { Held[*V.getAsObject()->getInteger("k")] = std::move(R); }
  void release(const Value &V) {
    auto &O = *V.getAsObject();
    auto It = Held.find(*O.getInteger("k"));
    if (It == Held.end()) return;
    auto CB = std::move(It->second);
    Held.erase(It);
    auto Go = [&] {
      if (*O.getBoolean("ok")) CB(Value(*O.getInteger("k")));
      else CB(llvm::make_error<LSPError>("released", ErrorCode::RequestCancelled));
    };
    if (*O.getBoolean("thread")) std::thread(Go).join(); else Go();
  }
  void ask(std::string Tag, bool Nest) {
    Ask(Value(Tag), [=, this](llvm::Expected<Value> R) {
      Object O{{"tag", Tag}};
      if (R) O["result"] = *R;
      else { O["error"] = true; llvm::consumeError(R.takeError()); }
      Ran(Value(std::move(O)));
      if (Nest) ask(Tag + "'", false);
    });
  }
  void call(const Value &V) {
    auto &O = *V.getAsObject();
    for (auto &T : *O.getArray("tags")) ask(T.getAsString()->str(), O.getBoolean("nest").value_or(false));
  }
  std::vector<std::thread> Storms;
  void storm(const Value &V) {
    auto &O = *V.getAsObject();
    for (int T = 0; T < *O.getInteger("threads"); T++)
      Storms.emplace_back([=, this, Calls = *O.getInteger("calls"), Notes = *O.getInteger("notes"), Pad = O.getString("pad")->str()] {
        for (int I = 0; I < Calls || I < Notes; I++) {
          std::string Tag = std::to_string(T) + "-" + std::to_string(I);
          if (I < Notes) Note(Value(Object{{"from", Tag}, {"pad", Pad}}));
          if (I < Calls) ask(Tag, false);
        }
      });
  }
public:
  Probe(std::unique_ptr<InboundPort> In, std::unique_ptr<OutboundPort> Out) : LSPServer(std::move(In), std::move(Out)) {
    Registry.addMethod("echo", this, &Probe::echo);
    Registry.addMethod("fail", this, &Probe::fail);
    Registry.addMethod("typed", this, &Probe::typed);
    Registry.addMethod("later", this, &Probe::later);
    Registry.addNotification("typed", this, &Probe::typedNote);
    Registry.addNotification("release", this, &Probe::release);
    Registry.addNotification("call", this, &Probe::call);
    Registry.addNotification("storm", this, &Probe::storm);
  }
  void join() { for (auto &T : Storms) T.join(); }
};
int main() {
  StreamLogger L(llvm::errs(), Logger::Level::Error);
  LoggingSession S(L);
  Probe P(std::make_unique<InboundPort>(), std::make_unique<OutboundPort>());
  P.run();
  P.join();
  return 0;
}
