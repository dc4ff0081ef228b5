// the configured timestamp type may be narrower than the interface's unsigned long: the clock then wraps earlier
#pragma once
#ifndef CONF_TSBITS
#define CONF_TSBITS (8 * (int)sizeof(long))
#endif
static const unsigned long TMAX = ~0ul >> (8 * sizeof(long) - CONF_TSBITS), QUARTER = 1ul << (CONF_TSBITS - 2);
