#pragma once
#define EVMC_EXPORT __attribute__((visibility("default")))
#define EVMC_NOEXCEPT noexcept
