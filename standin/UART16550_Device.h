#pragma once
#include <cstdint>
namespace mmio {
struct UART16550_Device {
  explicit UART16550_Device(uint32_t) {}
  void sync_from_backing(uint32_t *) {}
};
} // namespace mmio
