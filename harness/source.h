// A TranscoderInputStream whose bytes arrive in buffers.
#ifndef SOURCE_H_
#define SOURCE_H_
#include <string.h>

#include <algorithm>
#include <memory>
#include <string>
#include <vector>

#include "grpc_transcoding/transcoder_input_stream.h"

// The input: the bytes arrive in buffers; the reader sees what has arrived. Records what is asked of it.
class ArrivingSource : public google::grpc::transcoding::TranscoderInputStream {
 public:
  std::string bytes;              // all of them
  std::vector<uint32_t> cuts;     // ends of the buffers, increasing, the last = bytes.size(); repeated = an empty buffer
  size_t arrived = 0;             // buffers that have arrived
  bool ended = false;
  size_t pos = 0, buf = 0;        // next byte; buffer it is in
  size_t last = 0;                // size of the last buffer handed out (limit of BackUp)
  int zero = 0, calls = 0;
  std::string bad;                // what was asked wrongly
  bool lenient = false;           // asking when nothing is there is allowed
  std::vector<std::unique_ptr<char[]>> mem;

  void reset(const std::string& b, const std::vector<uint32_t>& c) {
    bytes = b;
    cuts = c;
    mem.clear();
    size_t at = 0;
    for (uint32_t e : cuts) {  // every buffer is an allocation of its own: a sanitizer sees any overrun
      mem.emplace_back(new char[e - at]);
      memcpy(mem.back().get(), bytes.data() + at, e - at);
      at = e;
    }
  }
  size_t begin_of(size_t i) const { return i ? cuts[i - 1] : 0; }
  size_t arrived_bytes() const { return arrived ? cuts[arrived - 1] : 0; }
  bool Next(const void** data, int* size) override {
    ++calls;
    while (buf < arrived && pos == cuts[buf] && !(begin_of(buf) == cuts[buf] && !skipped_)) ++buf, skipped_ = false;
    if (buf >= arrived) {
      if (bad.empty() && !lenient) bad = "asks the input for data when none is available";
      if (++zero > 1000) bad = "asks the input for data endlessly";
      *size = 0;
      last = 0;
      if (zero > 1000) return false;
      return !ended;
    }
    skipped_ = true;
    *data = mem[buf].get() + (pos - begin_of(buf));
    *size = cuts[buf] - pos;
    last = *size;
    pos = cuts[buf];
    return true;
  }
  void BackUp(int n) override {
    ++calls;
    if (n < 0 || (size_t)n > last) {
      if (bad.empty()) bad = "backs up " + std::to_string(n) + " bytes after a buffer of " + std::to_string(last);
      return;
    }
    pos -= n;
    last = 0;
  }
  bool Skip(int n) override {
    ++calls;
    last = 0;
    size_t to = std::min(pos + n, arrived_bytes());
    bool ok = pos + n <= arrived_bytes();
    if (!ok && bad.empty()) bad = "skips data that is not available";
    pos = to;
    while (buf < arrived && pos > cuts[buf]) ++buf, skipped_ = false;
    return ok;
  }
  int64_t ByteCount() const override { return pos; }
  int64_t BytesAvailable() const override { return arrived_bytes() - pos; }
  bool Finished() const override { return ended; }

 private:
  bool skipped_ = false;
};

#endif
