----------------------------- MODULE SegyTables -----------------------------
(* The record layouts of the SEG-Y standard (revision 0 and 1, big-endian byte
   numbers as printed in the standard), written out explicitly.  The code is
   judged against these tables, not the other way around.
   F(name, first byte, width, min, max, default, listed values or {} if any) *)
EXTENDS Integers, Sequences

F(n, off, w, lo, hi, def, vals) ==
  [name |-> n, off |-> off, w |-> w, lo |-> lo, hi |-> hi, def |-> def, vals |-> vals]

(* Is integer v a legal value of field f? *)
InDomain(f, v) == /\ f.lo <= v /\ v <= f.hi
                  /\ (f.vals = {} \/ v \in f.vals)

BinaryHeaderTable == <<
  F("job_id_num", 3201, 4, (-2147483647-1), 2147483647, 0, {}),
  F("line_num", 3205, 4, 0, 2147483647, 0, {}),
  F("reel_num", 3209, 4, (-2147483647-1), 2147483647, 0, {}),
  F("data_traces_per_ensemble", 3213, 2, 0, 32767, 0, {}),
  F("auxiliary_traces_per_ensemble", 3215, 2, 0, 32767, 0, {}),
  F("sample_interval", 3217, 2, 0, 32767, 0, {}),
  F("original_field_sample_interval", 3219, 2, 0, 32767, 0, {}),
  F("num_samples", 3221, 2, 0, 32767, 0, {}),
  F("original_field_num_samples", 3223, 2, 0, 32767, 0, {}),
  F("data_sample_format", 3225, 2, 1, 8, 5, {1, 2, 3, 5, 8}),
  F("ensemble_fold", 3227, 2, 0, 32767, 0, {}),
  F("trace_sorting", 3229, 2, (-1), 9, 0, {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}),
  F("vertical_sum_code", 3231, 2, 0, 32767, 0, {}),
  F("sweep_frequency_at_start", 3233, 2, 0, 32767, 0, {}),
  F("sweep_frequency_at_end", 3235, 2, 0, 32767, 0, {}),
  F("sweep_length", 3237, 2, 0, 32767, 0, {}),
  F("sweep_type", 3239, 2, 0, 4, 0, {0, 1, 2, 3, 4}),
  F("sweep_trace_number", 3241, 2, (-32768), 32767, 0, {}),
  F("sweep_trace_taper_length_at_start", 3243, 2, 0, 32767, 0, {}),
  F("sweep_trace_taper_length_at_end", 3245, 2, 0, 32767, 0, {}),
  F("taper_type", 3247, 2, 0, 3, 0, {0, 1, 2, 3}),
  F("correlated_data_traces", 3249, 2, 0, 2, 0, {0, 1, 2}),
  F("binary_gain_recovered", 3251, 2, 0, 2, 0, {0, 1, 2}),
  F("amplitude_recovery_method", 3253, 2, 0, 4, 0, {0, 1, 2, 3, 4}),
  F("measurement_system", 3255, 2, 0, 2, 0, {0, 1, 2}),
  F("impulse_signal_polarity", 3257, 2, 0, 2, 0, {0, 1, 2}),
  F("vibratory_polarity_code", 3259, 2, 0, 8, 0, {0, 1, 2, 3, 4, 5, 6, 7, 8}),
  F("format_revision_num", 3501, 2, 0, 256, 256, {0, 256}),
  F("fixed_length_trace_flag", 3503, 2, 0, 1, 0, {0, 1}),
  F("num_extended_textual_headers", 3505, 2, (-1), 32767, 0, {}) >>

TraceHeader0Table == <<
  F("line_sequence_num", 1, 4, (-2147483647-1), 2147483647, 0, {}),
  F("file_sequence_num", 5, 4, (-2147483647-1), 2147483647, 0, {}),
  F("field_record_num", 9, 4, (-2147483647-1), 2147483647, 0, {}),
  F("trace_num", 13, 4, (-2147483647-1), 2147483647, 0, {}),
  F("energy_source_point_num", 17, 4, (-2147483647-1), 2147483647, 0, {}),
  F("ensemble_num", 21, 4, (-2147483647-1), 2147483647, 0, {}),
  F("ensemble_trace_num", 25, 4, 0, 2147483647, 0, {}),
  F("trace_identification_code", 29, 2, (-32768), 32767, 0, {}),
  F("num_vertically_summed_traces", 31, 2, 0, 32767, 1, {}),
  F("num_horizontally_stacked_traces", 33, 2, 0, 32767, 1, {}),
  F("data_use", 35, 2, 1, 2, 1, {1, 2}),
  F("doc_nreceiver_offset", 37, 4, (-2147483647-1), 2147483647, 0, {}),
  F("receiver_group_elevation", 41, 4, (-2147483647-1), 2147483647, 0, {}),
  F("surface_elevation_at_source", 45, 4, (-2147483647-1), 2147483647, 0, {}),
  F("source_depth_below_surface", 49, 4, 0, 2147483647, 0, {}),
  F("datum_elevation_at_receiver_group", 53, 4, 0, 2147483647, 0, {}),
  F("datum_elevation_at_source", 57, 4, (-2147483647-1), 2147483647, 0, {}),
  F("water_depth_at_source", 61, 4, (-2147483647-1), 2147483647, 0, {}),
  F("water_depth_at_group", 65, 4, (-2147483647-1), 2147483647, 0, {}),
  F("elevation_scalar", 69, 2, (-10000), 10000, 1, {-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000}),
  F("xy_scalar", 71, 2, (-10000), 10000, 1, {-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000}),
  F("source_x", 73, 4, (-2147483647-1), 2147483647, 0, {}),
  F("source_y", 77, 4, (-2147483647-1), 2147483647, 0, {}),
  F("group_x", 81, 4, (-2147483647-1), 2147483647, 0, {}),
  F("group_y", 85, 4, (-2147483647-1), 2147483647, 0, {}),
  F("coordinate_units", 89, 2, 0, 4, 0, {0, 1, 2, 3, 4}),
  F("weathering_velocity", 91, 2, 0, 32767, 0, {}),
  F("subweathering_velocity", 93, 2, 0, 32767, 0, {}),
  F("uphole_time_at_source", 95, 2, 0, 32767, 0, {}),
  F("uphole_time_at_group", 97, 2, 0, 32767, 0, {}),
  F("source_static_correction", 99, 2, (-32768), 32767, 0, {}),
  F("group_static_correction", 101, 2, (-32768), 32767, 0, {}),
  F("total_static", 103, 2, (-32768), 32767, 0, {}),
  F("lag_time_a", 105, 2, (-32768), 32767, 0, {}),
  F("lag_time_b", 107, 2, (-32768), 32767, 0, {}),
  F("delay_recording_time", 109, 2, (-32768), 32767, 0, {}),
  F("mute_start_time", 111, 2, 0, 32767, 0, {}),
  F("mute_end_time", 113, 2, 0, 32767, 0, {}),
  F("num_samples", 115, 2, 0, 32767, 0, {}),
  F("sample_interval", 117, 2, (-32768), 32767, 0, {}),
  F("gain_type_of_field_instruments", 119, 2, 0, 32767, 0, {}),
  F("instrument_gain_constant", 121, 2, (-32768), 32767, 0, {}),
  F("instrument_initial_gain", 123, 2, (-32768), 32767, 0, {}),
  F("correlated", 125, 2, 1, 2, 1, {1, 2}),
  F("sweep_frequency_at_start", 127, 2, 0, 32767, 0, {}),
  F("sweep_frequency_at_end", 129, 2, 0, 32767, 0, {}),
  F("sweep_length", 131, 2, 0, 32767, 0, {}),
  F("sweep_type", 133, 2, 0, 4, 0, {0, 1, 2, 3, 4}),
  F("sweep_trace_taper_length_at_start", 135, 2, 0, 32767, 0, {}),
  F("sweep_trace_taper_length_at_end", 137, 2, 0, 32767, 0, {}),
  F("taper_type", 139, 2, 0, 3, 0, {0, 1, 2, 3}),
  F("alias_filter_frequency", 141, 2, 0, 32767, 0, {}),
  F("alias_filter_slope", 143, 2, (-32768), 32767, 0, {}),
  F("notch_filter_frequency", 145, 2, 0, 32767, 0, {}),
  F("notch_filter_slope", 147, 2, (-32768), 32767, 0, {}),
  F("low_cut_frequency", 149, 2, 0, 32767, 0, {}),
  F("high_cut_frequency", 151, 2, 0, 32767, 0, {}),
  F("low_cut_slope", 153, 2, (-32768), 32767, 0, {}),
  F("high_cut_slope", 155, 2, (-32768), 32767, 0, {}),
  F("year_recorded", 157, 2, (-32768), 32767, 0, {}),
  F("day_of_year", 159, 2, 0, 366, 0, {}),
  F("hour_of_day", 161, 2, 0, 24, 0, {}),
  F("minute_of_hour", 163, 2, 0, 60, 0, {}),
  F("second_of_minute", 165, 2, 0, 60, 0, {}),
  F("time_basis_code", 167, 2, 0, 4, 0, {0, 1, 2, 3, 4}),
  F("trace_weighting_factor", 169, 2, 0, 32767, 0, {}),
  F("geophone_group_num_roll_switch_position_one", 171, 2, (-32768), 32767, 0, {}),
  F("geophone_group_num_first_trace_original_field", 173, 2, (-32768), 32767, 0, {}),
  F("geophone_group_num_last_trace_original_field", 175, 2, (-32768), 32767, 0, {}),
  F("gap_size", 177, 2, 0, 32767, 0, {}),
  F("over_travel", 179, 2, 0, 2, 0, {0, 1, 2}) >>

TraceHeader1Extra == <<
  F("cdp_x", 181, 4, (-2147483647-1), 2147483647, 0, {}),
  F("cdp_y", 185, 4, (-2147483647-1), 2147483647, 0, {}),
  F("inline_number", 189, 4, (-2147483647-1), 2147483647, 0, {}),
  F("crossline_number", 193, 4, (-2147483647-1), 2147483647, 0, {}),
  F("shotpoint_number", 197, 4, (-2147483647-1), 2147483647, 0, {}),
  F("shotpoint_scalar", 201, 2, (-32768), 32767, 0, {}),
  F("trace_unit", 203, 2, (-1), 9, 0, {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}),
  F("transduction_constant_mantissa", 205, 4, (-2147483647-1), 2147483647, 0, {}),
  F("transduction_constant_exponent", 209, 2, (-32768), 32767, 0, {}),
  F("transduction_units", 211, 2, (-1), 9, 0, {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}),
  F("device_trace_identifier", 213, 2, (-32768), 32767, 0, {}),
  F("time_scalar", 215, 2, (-10000), 10000, 0, {-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000}),
  F("source_type", 217, 2, (-32768), 9, 0, {}),
  F("source_energy_direction", 219, 4, (-2147483647-1), 2147483647, 0, {}),
  F("source_measurement_mantissa", 225, 4, (-2147483647-1), 2147483647, 0, {}),
  F("source_measurement_exponent", 229, 2, (-32768), 32767, 0, {}),
  F("source_measurement_unit", 231, 2, (-1), 6, 0, {-1, 0, 1, 2, 3, 4, 5, 6}) >>

TraceHeader1Table == TraceHeader0Table \o TraceHeader1Extra

(* Data sample format codes: width in bytes *)
SampleWidth(code) == CASE code = 1 -> 4 [] code = 2 -> 4 [] code = 3 -> 2
                       [] code = 5 -> 4 [] code = 8 -> 1 [] OTHER -> 0
SampleFormats == {1, 2, 3, 5, 8}
SampleDescription(code) == CASE code = 1 -> "IBM 32 bit float" [] code = 2 -> "32 bit signed integer" [] code = 3 -> "16 bit signed integer"
                             [] code = 5 -> "IEEE float32" [] code = 8 -> "8 bit signed integer (byte)"
SampleTypeName(code) == CASE code = 1 -> "ibm" [] code = 2 -> "int32" [] code = 3 -> "int16"
                       [] code = 5 -> "float32" [] code = 8 -> "int8" [] OTHER -> "?"

(* Structure of the tables themselves: increasing, non-overlapping, inside the record. *)
WellFormed(tab, start, len) ==
  /\ \A k \in 1..Len(tab) : tab[k].off >= start /\ tab[k].off + tab[k].w <= start + len
  /\ \A k \in 1..(Len(tab)-1) : tab[k].off + tab[k].w <= tab[k+1].off
  /\ \A k \in 1..Len(tab) : InDomain(tab[k], tab[k].def)
ASSUME WellFormed(BinaryHeaderTable, 3201, 400)
ASSUME WellFormed(TraceHeader0Table, 1, 180)
ASSUME WellFormed(TraceHeader1Table, 1, 240)
=============================================================================
