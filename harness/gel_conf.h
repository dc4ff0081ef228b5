// Configuration header used by the checks; every setting can be overridden per build configuration with -D.
#ifndef PMAN_CONF_H_INCLUDED
#define PMAN_CONF_H_INCLUDED
#include <stddef.h>
#include <stdint.h>

#ifndef GEL_PARAMETER_MAX_SIZE
#define GEL_PARAMETER_MAX_SIZE 8
#endif

// page manager
#ifndef PMAN_NAVIGATION_DEPTH
#define PMAN_NAVIGATION_DEPTH 5
#endif
#ifdef CONF_VOID_VIEW   // as in gel_conf_template.h: view callbacks return nothing
#define PMAN_VIEW_NULL
#define PMAN_DATA_NULL NULL
typedef void *pman_message_t;
typedef void *pman_event_t;
typedef void *pman_page_data_t;
typedef void *pman_model_t;
typedef void  pman_view_t;
#else
#ifndef PMAN_VIEW_NULL
#define PMAN_VIEW_NULL 0
#endif
#ifndef PMAN_DATA_NULL
#define PMAN_DATA_NULL 0
#endif
typedef int pman_message_t;
typedef int pman_event_t;
typedef int pman_page_data_t;
typedef int pman_model_t;
typedef int pman_view_t;
#endif

// pid
#ifndef CONF_PID_TYPE
#define CONF_PID_TYPE int
#endif
typedef CONF_PID_TYPE pid_control_type_t;
#ifndef CONF_PID_OUT
#define CONF_PID_OUT CONF_PID_TYPE
#endif
typedef CONF_PID_OUT  pid_output_type_t;
#ifndef GEL_PID_INTEGRAL_HISTORY_SIZE
#define GEL_PID_INTEGRAL_HISTORY_SIZE 200
#endif
#ifndef GEL_PID_DERIVATIVE_DELTA
#define GEL_PID_DERIVATIVE_DELTA 5
#endif

// watcher
#ifndef GEL_MALLOC_AVAILABLE
#define GEL_MALLOC_AVAILABLE 0
#endif
#ifndef GEL_STATIC_BLOCK_SIZE
#define GEL_STATIC_BLOCK_SIZE 80
#endif

#define WL_BLOCK_SIZE 4

typedef int parameter_user_data_t;
#endif
