#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include "os.h"

typedef struct { const char *name; } bagl_icon_details_t;

typedef void (*ux_flow_step_init_t)(unsigned int stack_slot);
typedef struct ux_flow_step_s {
    ux_flow_step_init_t init;
    const void *params;
    const struct ux_flow_step_s *const *validate_flow;
    const struct ux_flow_step_s *const *error_flow;
} ux_flow_step_t;

#define FLOW_END_STEP ((const ux_flow_step_t *) 0)
#define FLOW_BARRIER  ((const ux_flow_step_t *) -2)
#define FLOW_START    ((const ux_flow_step_t *) -3)
#define FLOW_LOOP     ((const ux_flow_step_t *) -4)

typedef struct {
    const ux_flow_step_t *const *steps;
    uint16_t index;
    uint16_t prev_index;
    uint16_t length;
} ux_flow_state_t;

#define UX_STACK_SLOT_COUNT 1
typedef struct {
    uint8_t stack_count;
    ux_flow_state_t flow_stack[UX_STACK_SLOT_COUNT];
} ux_state_t;
extern ux_state_t G_ux;

unsigned int ux_stack_push(void);
void ux_flow_init(unsigned int stack_slot, const ux_flow_step_t *const *steps,
                  const ux_flow_step_t *const start_step);
void ux_flow_next(void);
void ux_flow_prev(void);
void ux_flow_validate(void);
void ux_flow_relayout(void);

typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pb_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pnn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pbb_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_bn_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_nn_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_bb_params_t;
typedef struct { const char *title; const char *text; } ux_layout_bnnn_paging_params_t;
typedef ux_layout_bnnn_paging_params_t ux_layout_paging_params_t;
void ux_layout_pn_init(unsigned int);
void ux_layout_pb_init(unsigned int);
void ux_layout_pnn_init(unsigned int);
void ux_layout_pbb_init(unsigned int);
void ux_layout_bn_init(unsigned int);
void ux_layout_nn_init(unsigned int);
void ux_layout_bb_init(unsigned int);
void ux_layout_bnnn_paging_init(unsigned int);
void ux_layout_paging_init(unsigned int);

#define UX_STEP_NOCB(stepname, layoutkind, ...)                                       \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;             \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, &stepname##_val, NULL, NULL}

#define UX_STEP_CB(stepname, layoutkind, validate_cb, ...)                            \
    void stepname##validate_init(unsigned int stack_slot) {                           \
        UNUSED(stack_slot);                                                           \
        validate_cb;                                                                  \
    }                                                                                 \
    const ux_flow_step_t stepname##_validate_step = {stepname##validate_init, NULL, NULL, NULL}; \
    const ux_flow_step_t *const stepname##_validate[] = {&stepname##_validate_step, FLOW_END_STEP}; \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;             \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, &stepname##_val,  \
                                     stepname##_validate, NULL}

#define UX_STEP_INIT(stepname, validate_flow, error_flow, ...)                        \
    void stepname##_init(unsigned int stack_slot) {                                   \
        UNUSED(stack_slot);                                                           \
        __VA_ARGS__;                                                                  \
    }                                                                                 \
    const ux_flow_step_t stepname = {stepname##_init, NULL, validate_flow, error_flow}
