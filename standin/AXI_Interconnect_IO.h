// Stand-in for the port types of the (absent) axi-interconnect-kit submodule.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <vector>

namespace axi_interconnect {
constexpr int MASTER_ICACHE = 0;
constexpr int MASTER_DCACHE_R = 1;
constexpr int MASTER_EXTRA_R = 2;
constexpr int NUM_READ_MASTERS = 3;
constexpr int MASTER_DCACHE_W = 0;
constexpr int MASTER_EXTRA_W = 1;
constexpr int NUM_WRITE_MASTERS = 2;
constexpr uint32_t MAX_READ_TRANSACTION_BYTES = 256;
constexpr int MAX_READ_TRANSACTION_WORDS = MAX_READ_TRANSACTION_BYTES / 4;
constexpr int CACHELINE_WORDS = 16;
constexpr uint32_t AXI_UPSTREAM_PAYLOAD_BYTES = 64;
constexpr uint32_t MAX_OUTSTANDING = 16;
constexpr uint32_t MAX_READ_OUTSTANDING_PER_MASTER = 8;
constexpr uint32_t AXI_LLC_META_ENTRY_BYTES = 8;
constexpr uint32_t AXI_LLC_REPL_BYTES = 4;

template <int N> struct WideData {
  uint32_t words[N] = {};
  uint32_t &operator[](int i) { return words[i]; }
  const uint32_t &operator[](int i) const { return words[i]; }
  void clear() { std::memset(words, 0, sizeof words); }
};
struct ReadMasterReq_t {
  bool valid = false, ready = false, accepted = false;
  uint8_t accepted_id = 0;
  uint32_t addr = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
};
struct ReadMasterResp_t {
  bool valid = false, ready = false;
  WideData<MAX_READ_TRANSACTION_WORDS> data{};
  uint8_t id = 0;
};
struct ReadMasterPort_t {
  ReadMasterReq_t req{};
  ReadMasterResp_t resp{};
};
struct WriteMasterReq_t {
  bool valid = false, ready = false, accepted = false;
  uint32_t addr = 0;
  WideData<MAX_READ_TRANSACTION_WORDS> wdata{};
  uint64_t wstrb = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
};
struct WriteMasterResp_t {
  bool valid = false, ready = false;
  uint8_t id = 0;
};
struct WriteMasterPort_t {
  WriteMasterReq_t req{};
  WriteMasterResp_t resp{};
};
struct ReadReqHoldLatch {
  bool valid = false;
};
} // namespace axi_interconnect
