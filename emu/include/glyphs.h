#pragma once
#include "ux.h"
extern const bagl_icon_details_t C_icon_warning, C_icon_processing, C_icon_validate_14, C_icon_eye,
    C_icon_dashboard_x, C_icon_crossmark, C_icon_certificate, C_icon_back, C_app_logo,
    C_icon_validate, C_icon_certificate_14, C_icon_coggle;
