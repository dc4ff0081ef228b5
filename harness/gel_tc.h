// configuration header of the time comparisons (C31)
#define GEL_CUSTOM_TIMESTAMP_TYPE CONF_TS
