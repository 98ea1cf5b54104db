"""Names of settings, inputs and states (as in spec/BrushMeta.tla)."""
SETTINGS = 'opaque opaque_multiply opaque_linearize radius_logarithmic hardness softness anti_aliasing dabs_per_basic_radius dabs_per_actual_radius dabs_per_second gridmap_scale gridmap_scale_x gridmap_scale_y radius_by_random speed1_slowness speed2_slowness speed1_gamma speed2_gamma offset_by_random offset_y offset_x offset_angle offset_angle_asc offset_angle_view offset_angle_2 offset_angle_2_asc offset_angle_2_view offset_angle_adj offset_multiplier offset_by_speed offset_by_speed_slowness slow_tracking slow_tracking_per_dab tracking_noise color_h color_s color_v restore_color change_color_h change_color_l change_color_hsl_s change_color_v change_color_hsv_s smudge paint_mode smudge_transparency smudge_length smudge_length_log smudge_bucket smudge_radius_log eraser stroke_threshold stroke_duration_logarithmic stroke_holdtime custom_input custom_input_slowness elliptical_dab_ratio elliptical_dab_angle direction_filter lock_alpha colorize posterize posterize_num snap_to_pixel pressure_gain_log'.split()
INPUTS = 'pressure random stroke direction tilt_declination tilt_ascension speed1 speed2 custom direction_angle attack_angle tilt_declinationx tilt_declinationy gridmap_x gridmap_y viewzoom brush_radius barrel_rotation'.split()
STATES = 'X Y PRESSURE PARTIAL_DABS ACTUAL_RADIUS SMUDGE_RA SMUDGE_GA SMUDGE_BA SMUDGE_A LAST_GETCOLOR_R LAST_GETCOLOR_G LAST_GETCOLOR_B LAST_GETCOLOR_A LAST_GETCOLOR_RECENTNESS ACTUAL_X ACTUAL_Y NORM_DX_SLOW NORM_DY_SLOW NORM_SPEED1_SLOW NORM_SPEED2_SLOW STROKE STROKE_STARTED CUSTOM_INPUT ACTUAL_ELLIPTICAL_DAB_RATIO ACTUAL_ELLIPTICAL_DAB_ANGLE DIRECTION_DX DIRECTION_DY DECLINATION ASCENSION VIEWZOOM VIEWROTATION DIRECTION_ANGLE_DX DIRECTION_ANGLE_DY FLIP GRIDMAP_X GRIDMAP_Y DECLINATIONX DECLINATIONY DABS_PER_BASIC_RADIUS DABS_PER_ACTUAL_RADIUS DABS_PER_SECOND BARREL_ROTATION'.split()
ALLSTATES = 44
