------------------------------ MODULE BrushMeta ------------------------------
(* The published settings, inputs and states of a brush: <<name, constant,    *)
(* minimum, default, maximum>> and <<name, hard min, soft min, normal, soft   *)
(* max, hard max>> ("none": unbounded), in the order of the public enums.     *)
EXTENDS Fl, Sequences
SettingTable == <<
  << "opaque", FALSE, "0.0", "1.0", "2.0" >>,
  << "opaque_multiply", FALSE, "0.0", "0.0", "2.0" >>,
  << "opaque_linearize", TRUE, "0.0", "0.9", "2.0" >>,
  << "radius_logarithmic", FALSE, "-2.0", "2.0", "6.0" >>,
  << "hardness", FALSE, "0.0", "0.8", "1.0" >>,
  << "softness", FALSE, "0.0", "0.0", "1.0" >>,
  << "anti_aliasing", FALSE, "0.0", "1.0", "5.0" >>,
  << "dabs_per_basic_radius", FALSE, "0.0", "0.0", "200.0" >>,
  << "dabs_per_actual_radius", FALSE, "0.0", "2.0", "200.0" >>,
  << "dabs_per_second", FALSE, "0.0", "0.0", "200.0" >>,
  << "gridmap_scale", FALSE, "-10.0", "0.0", "10.0" >>,
  << "gridmap_scale_x", FALSE, "0.0", "1.0", "10.0" >>,
  << "gridmap_scale_y", FALSE, "0.0", "1.0", "10.0" >>,
  << "radius_by_random", FALSE, "0.0", "0.0", "1.5" >>,
  << "speed1_slowness", FALSE, "0.0", "0.04", "0.2" >>,
  << "speed2_slowness", FALSE, "0.0", "0.8", "3.0" >>,
  << "speed1_gamma", TRUE, "-8.0", "4.0", "8.0" >>,
  << "speed2_gamma", TRUE, "-8.0", "4.0", "8.0" >>,
  << "offset_by_random", FALSE, "0.0", "0.0", "25.0" >>,
  << "offset_y", FALSE, "-40.0", "0.0", "40.0" >>,
  << "offset_x", FALSE, "-40.0", "0.0", "40.0" >>,
  << "offset_angle", FALSE, "-40.0", "0.0", "40.0" >>,
  << "offset_angle_asc", FALSE, "-40.0", "0.0", "40.0" >>,
  << "offset_angle_view", FALSE, "-40.0", "0.0", "40.0" >>,
  << "offset_angle_2", FALSE, "0.0", "0.0", "40.0" >>,
  << "offset_angle_2_asc", FALSE, "0.0", "0.0", "40.0" >>,
  << "offset_angle_2_view", FALSE, "0.0", "0.0", "40.0" >>,
  << "offset_angle_adj", FALSE, "-180.0", "0.0", "180.0" >>,
  << "offset_multiplier", FALSE, "-2.0", "0.0", "3.0" >>,
  << "offset_by_speed", FALSE, "-3.0", "0.0", "3.0" >>,
  << "offset_by_speed_slowness", FALSE, "0.0", "1.0", "15.0" >>,
  << "slow_tracking", TRUE, "0.0", "0.0", "10.0" >>,
  << "slow_tracking_per_dab", FALSE, "0.0", "0.0", "10.0" >>,
  << "tracking_noise", TRUE, "0.0", "0.0", "12.0" >>,
  << "color_h", TRUE, "0.0", "0.0", "1.0" >>,
  << "color_s", TRUE, "-0.5", "0.0", "1.5" >>,
  << "color_v", TRUE, "-0.5", "0.0", "1.5" >>,
  << "restore_color", TRUE, "0.0", "0.0", "1.0" >>,
  << "change_color_h", FALSE, "-2.0", "0.0", "2.0" >>,
  << "change_color_l", FALSE, "-2.0", "0.0", "2.0" >>,
  << "change_color_hsl_s", FALSE, "-2.0", "0.0", "2.0" >>,
  << "change_color_v", FALSE, "-2.0", "0.0", "2.0" >>,
  << "change_color_hsv_s", FALSE, "-2.0", "0.0", "2.0" >>,
  << "smudge", FALSE, "0.0", "0.0", "1.0" >>,
  << "paint_mode", FALSE, "0.0", "1.0", "1.0" >>,
  << "smudge_transparency", FALSE, "-1.0", "0.0", "1.0" >>,
  << "smudge_length", FALSE, "0.0", "0.5", "1.0" >>,
  << "smudge_length_log", FALSE, "0.0", "0.0", "20.0" >>,
  << "smudge_bucket", FALSE, "0.0", "0.0", "255.0" >>,
  << "smudge_radius_log", FALSE, "-1.6", "0.0", "1.6" >>,
  << "eraser", FALSE, "0.0", "0.0", "1.0" >>,
  << "stroke_threshold", TRUE, "0.0", "0.0", "0.5" >>,
  << "stroke_duration_logarithmic", FALSE, "-1.0", "4.0", "14.0" >>,
  << "stroke_holdtime", FALSE, "0.0", "0.0", "10.0" >>,
  << "custom_input", FALSE, "-5.0", "0.0", "5.0" >>,
  << "custom_input_slowness", FALSE, "0.0", "0.0", "10.0" >>,
  << "elliptical_dab_ratio", FALSE, "1.0", "1.0", "10.0" >>,
  << "elliptical_dab_angle", FALSE, "0.0", "90.0", "180.0" >>,
  << "direction_filter", FALSE, "0.0", "2.0", "10.0" >>,
  << "lock_alpha", FALSE, "0.0", "0.0", "1.0" >>,
  << "colorize", FALSE, "0.0", "0.0", "1.0" >>,
  << "posterize", FALSE, "0.0", "0.0", "1.0" >>,
  << "posterize_num", FALSE, "0.01", "0.05", "1.28" >>,
  << "snap_to_pixel", FALSE, "0.0", "0.0", "1.0" >>,
  << "pressure_gain_log", TRUE, "-1.8", "0.0", "1.8" >> >>
InputTable == <<
  << "pressure", "0.0", "0.0", "0.4", "1.0", "none" >>,
  << "random", "0.0", "0.0", "0.5", "1.0", "1.0" >>,
  << "stroke", "0.0", "0.0", "0.5", "1.0", "1.0" >>,
  << "direction", "0.0", "0.0", "0.0", "180.0", "180.0" >>,
  << "tilt_declination", "0.0", "0.0", "0.0", "90.0", "90.0" >>,
  << "tilt_ascension", "-180.0", "-180.0", "0.0", "180.0", "180.0" >>,
  << "speed1", "none", "0.0", "0.5", "4.0", "none" >>,
  << "speed2", "none", "0.0", "0.5", "4.0", "none" >>,
  << "custom", "none", "-10.0", "0.0", "10.0", "none" >>,
  << "direction_angle", "0.0", "0.0", "0.0", "360.0", "360.0" >>,
  << "attack_angle", "-180.0", "-180.0", "0.0", "180.0", "180.0" >>,
  << "tilt_declinationx", "-90.0", "-90.0", "0.0", "90.0", "90.0" >>,
  << "tilt_declinationy", "-90.0", "-90.0", "0.0", "90.0", "90.0" >>,
  << "gridmap_x", "0.0", "0.0", "0.0", "256.0", "256.0" >>,
  << "gridmap_y", "0.0", "0.0", "0.0", "256.0", "256.0" >>,
  << "viewzoom", "-2.77", "-2.77", "0.0", "4.15", "4.15" >>,
  << "brush_radius", "-2.0", "-2.0", "0.0", "6.0", "6.0" >>,
  << "barrel_rotation", "-180.0", "-180.0", "0.0", "180.0", "180.0" >> >>
StateNames == << "x", "y", "pressure", "partial_dabs", "actual_radius", "smudge_ra", "smudge_ga", "smudge_ba", "smudge_a", "last_getcolor_r", "last_getcolor_g", "last_getcolor_b", "last_getcolor_a", "last_getcolor_recentness", "actual_x", "actual_y", "norm_dx_slow", "norm_dy_slow", "norm_speed1_slow", "norm_speed2_slow", "stroke", "stroke_started", "custom_input", "rng_seed", "actual_elliptical_dab_ratio", "actual_elliptical_dab_angle", "direction_dx", "direction_dy", "declination", "ascension", "viewzoom", "viewrotation", "direction_angle_dx", "direction_angle_dy", "attack_angle", "flip", "gridmap_x", "gridmap_y", "declinationx", "declinationy", "dabs_per_basic_radius", "dabs_per_actual_radius", "dabs_per_second", "barrel_rotation" >>

Range1(t) == { t[i][1] : i \in DOMAIN t }
Settings == Range1(SettingTable)
Inputs == Range1(InputTable)
DefaultOf == [ s \in Settings |-> F(SettingTable[CHOOSE i \in DOMAIN SettingTable : SettingTable[i][1] = s][4]) ]
=============================================================================
