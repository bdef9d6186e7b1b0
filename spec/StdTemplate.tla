---------------------------- MODULE StdTemplate -----------------------------
(* The standard textual header: forty cards, and the slots in them.
   TS(name, card, first column, width); cards without trailing blanks. *)
EXTENDS Integers, Sequences, TLC
TS(n, card, col, w) == [name |-> n, card |-> card, col |-> col, w |-> w]
StdSlots == <<
  TS("client", 1, 12, 22),
  TS("company", 1, 43, 21),
  TS("crew_number", 1, 73, 8),
  TS("line", 2, 10, 10),
  TS("area", 2, 26, 22),
  TS("map_id", 2, 56, 25),
  TS("reel_number", 3, 13, 9),
  TS("day_start_of_reel", 3, 41, 3),
  TS("year", 3, 50, 4),
  TS("observer", 3, 64, 17),
  TS("instrument_manufacturer", 4, 21, 10),
  TS("instrument_model", 4, 38, 10),
  TS("instrument_serial", 4, 59, 22),
  TS("data_traces_per_record", 5, 24, 6),
  TS("auxiliary_traces_per_record", 5, 55, 7),
  TS("cdp_fold", 5, 72, 9),
  TS("sample_interval", 6, 21, 7),
  TS("samples_per_trace", 6, 43, 5),
  TS("bits_per_inch", 6, 57, 4),
  TS("bytes_per_sample", 6, 75, 6),
  TS("recording_format", 7, 22, 6),
  TS("format_this_reel", 7, 46, 6),
  TS("measurement_system", 7, 72, 9),
  TS("sample_code_floating_point", 8, 30, 3),
  TS("sample_code_fixed_point", 8, 43, 3),
  TS("sample_code_fixed_point_gain", 8, 61, 3),
  TS("sample_code_correlated", 8, 76, 5),
  TS("gain_type_fixed", 9, 23, 3),
  TS("gain_type_binary", 9, 34, 3),
  TS("gain_type_fixed_point_gain", 9, 53, 3),
  TS("gain_type_other", 9, 63, 18),
  TS("filters_alias_hz", 10, 20, 4),
  TS("filters_notch_hz", 10, 34, 4),
  TS("filters_band_lower_hz", 10, 47, 4),
  TS("filters_band_upper_hz", 10, 52, 5),
  TS("filters_slope_lower_db_per_oct", 10, 67, 3),
  TS("filters_slope_upper_db_per_oct", 10, 71, 4),
  TS("source_type", 11, 18, 10),
  TS("source_number_per_point", 11, 42, 6),
  TS("source_point_interval", 11, 64, 17),
  TS("source_pattern", 12, 18, 25),
  TS("source_length", 12, 51, 6),
  TS("source_width", 12, 64, 17),
  TS("sweep_start_hz", 13, 18, 4),
  TS("sweep_end_hz", 13, 30, 4),
  TS("sweep_length_ms", 13, 45, 5),
  TS("sweep_channel_number", 13, 65, 3),
  TS("sweep_type", 13, 74, 7),
  TS("taper_start_length_ms", 14, 25, 6),
  TS("taper_end_length_ms", 14, 46, 6),
  TS("taper_type", 14, 61, 20),
  TS("spread_offset", 15, 20, 6),
  TS("spread_max_distance", 15, 40, 6),
  TS("spread_group_interval", 15, 62, 19),
  TS("geophones_per_group", 16, 26, 3),
  TS("geophone_spacing", 16, 38, 3),
  TS("geophone_frequency", 16, 52, 3),
  TS("geophone_manufacturer", 16, 60, 8),
  TS("geophone_model", 16, 75, 6),
  TS("geophone_pattern", 17, 18, 24),
  TS("geophone_length", 17, 50, 6),
  TS("geophone_width", 17, 63, 18),
  TS("traces_sorted_by_record", 18, 30, 3),
  TS("traces_sorted_by_cdp", 18, 38, 3),
  TS("traces_sorted_by_other", 18, 48, 33),
  TS("amplitude_recovery_none", 19, 30, 4),
  TS("amplitude_recovery_spherical_div", 19, 49, 5),
  TS("amplitude_recovery_agc", 19, 59, 2),
  TS("amplitude_recovery_other", 19, 68, 13),
  TS("map_projection", 20, 20, 18),
  TS("zone_id", 20, 47, 5),
  TS("coordinate_units", 20, 70, 11),
  TS("processing1", 21, 17, 64),
  TS("processing2", 22, 17, 64),
  TS("unassigned1", 23, 5, 76),
  TS("unassigned2", 24, 5, 76),
  TS("unassigned3", 25, 5, 76),
  TS("unassigned4", 26, 5, 76),
  TS("unassigned5", 27, 5, 76),
  TS("unassigned6", 28, 5, 76),
  TS("unassigned7", 29, 5, 76),
  TS("unassigned8", 30, 5, 76),
  TS("unassigned9", 31, 5, 76),
  TS("unassigned10", 32, 5, 76),
  TS("unassigned11", 33, 5, 76),
  TS("unassigned12", 34, 5, 76),
  TS("unassigned13", 35, 5, 76),
  TS("unassigned14", 36, 5, 76),
  TS("unassigned15", 37, 5, 76),
  TS("unassigned16", 38, 5, 76),
  TS("unassigned17", 39, 5, 76),
  TS("end_marker", 40, 5, 76) >>
\* C 1 CLIENT                        COMPANY                       CREW NO
\* C 2 LINE            AREA                        MAP ID
\* C 3 REEL NO           DAY-START OF REEL     YEAR      OBSERVER
\* C 4 INSTRUMENT: MFG            MODEL            SERIAL NO
\* C 5 DATA TRACES/RECORD        AUXILIARY TRACES/RECORD         CDP FOLD
\* C 6 SAMPLE INTERVAL         SAMPLES/TRACE       BITS/IN      BYTES/SAMPLE
\* C 7 RECORDING FORMAT        FORMAT THIS REEL        MEASUREMENT SYSTEM
\* C 8 SAMPLE CODE: FLOATING PT     FIXED PT     FIXED PT-GAIN     CORRELATED
\* C 9 GAIN  TYPE: FIXED     BINARY     FLOATING POINT     OTHER
\* C10 FILTERS: ALIAS     HZ  NOTCH     HZ  BAND     -     HZ  SLOPE    -    DB/OCT
\* C11 SOURCE: TYPE            NUMBER/POINT        POINT INTERVAL
\* C12     PATTERN:                           LENGTH        WIDTH
\* C13 SWEEP: START     HZ  END     HZ  LENGTH      MS  CHANNEL NO     TYPE
\* C14 TAPER: START LENGTH       MS  END LENGTH       MS  TYPE
\* C15 SPREAD: OFFSET        MAX DISTANCE        GROUP INTERVAL
\* C16 GEOPHONES: PER GROUP     SPACING     FREQUENCY     MFG          MODEL
\* C17     PATTERN:                          LENGTH        WIDTH
\* C18 TRACES SORTED BY: RECORD     CDP     OTHER
\* C19 AMPLITUDE RECOVERY: NONE      SPHERICAL DIV       AGC    OTHER
\* C20 MAP PROJECTION                    ZONE ID       COORDINATE UNITS
\* C21 PROCESSING:
\* C22 PROCESSING:
\* C23
\* C24
\* C25
\* C26
\* C27
\* C28
\* C29
\* C30
\* C31
\* C32
\* C33
\* C34
\* C35
\* C36
\* C37
\* C38
\* C39
\* C40
StdCards == <<
  <<67,32,49,32,67,76,73,69,78,84,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,67,79,77,80,65,78,89,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,67,82,69,87,32,78,79>>,
  <<67,32,50,32,76,73,78,69,32,32,32,32,32,32,32,32,32,32,32,32,65,82,69,65,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,77,65,80,32,73,68>>,
  <<67,32,51,32,82,69,69,76,32,78,79,32,32,32,32,32,32,32,32,32,32,32,68,65,89,45,83,84,65,82,84,32,79,70,32,82,69,69,76,32,32,32,32,32,89,69,65,82,32,32,32,32,32,32,79,66,83,69,82,86,69,82>>,
  <<67,32,52,32,73,78,83,84,82,85,77,69,78,84,58,32,77,70,71,32,32,32,32,32,32,32,32,32,32,32,32,77,79,68,69,76,32,32,32,32,32,32,32,32,32,32,32,32,83,69,82,73,65,76,32,78,79>>,
  <<67,32,53,32,68,65,84,65,32,84,82,65,67,69,83,47,82,69,67,79,82,68,32,32,32,32,32,32,32,32,65,85,88,73,76,73,65,82,89,32,84,82,65,67,69,83,47,82,69,67,79,82,68,32,32,32,32,32,32,32,32,32,67,68,80,32,70,79,76,68>>,
  <<67,32,54,32,83,65,77,80,76,69,32,73,78,84,69,82,86,65,76,32,32,32,32,32,32,32,32,32,83,65,77,80,76,69,83,47,84,82,65,67,69,32,32,32,32,32,32,32,66,73,84,83,47,73,78,32,32,32,32,32,32,66,89,84,69,83,47,83,65,77,80,76,69>>,
  <<67,32,55,32,82,69,67,79,82,68,73,78,71,32,70,79,82,77,65,84,32,32,32,32,32,32,32,32,70,79,82,77,65,84,32,84,72,73,83,32,82,69,69,76,32,32,32,32,32,32,32,32,77,69,65,83,85,82,69,77,69,78,84,32,83,89,83,84,69,77>>,
  <<67,32,56,32,83,65,77,80,76,69,32,67,79,68,69,58,32,70,76,79,65,84,73,78,71,32,80,84,32,32,32,32,32,70,73,88,69,68,32,80,84,32,32,32,32,32,70,73,88,69,68,32,80,84,45,71,65,73,78,32,32,32,32,32,67,79,82,82,69,76,65,84,69,68>>,
  <<67,32,57,32,71,65,73,78,32,32,84,89,80,69,58,32,70,73,88,69,68,32,32,32,32,32,66,73,78,65,82,89,32,32,32,32,32,70,76,79,65,84,73,78,71,32,80,79,73,78,84,32,32,32,32,32,79,84,72,69,82>>,
  <<67,49,48,32,70,73,76,84,69,82,83,58,32,65,76,73,65,83,32,32,32,32,32,72,90,32,32,78,79,84,67,72,32,32,32,32,32,72,90,32,32,66,65,78,68,32,32,32,32,32,45,32,32,32,32,32,72,90,32,32,83,76,79,80,69,32,32,32,32,45,32,32,32,32,68,66,47,79,67,84>>,
  <<67,49,49,32,83,79,85,82,67,69,58,32,84,89,80,69,32,32,32,32,32,32,32,32,32,32,32,32,78,85,77,66,69,82,47,80,79,73,78,84,32,32,32,32,32,32,32,32,80,79,73,78,84,32,73,78,84,69,82,86,65,76>>,
  <<67,49,50,32,32,32,32,32,80,65,84,84,69,82,78,58,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,76,69,78,71,84,72,32,32,32,32,32,32,32,32,87,73,68,84,72>>,
  <<67,49,51,32,83,87,69,69,80,58,32,83,84,65,82,84,32,32,32,32,32,72,90,32,32,69,78,68,32,32,32,32,32,72,90,32,32,76,69,78,71,84,72,32,32,32,32,32,32,77,83,32,32,67,72,65,78,78,69,76,32,78,79,32,32,32,32,32,84,89,80,69>>,
  <<67,49,52,32,84,65,80,69,82,58,32,83,84,65,82,84,32,76,69,78,71,84,72,32,32,32,32,32,32,32,77,83,32,32,69,78,68,32,76,69,78,71,84,72,32,32,32,32,32,32,32,77,83,32,32,84,89,80,69>>,
  <<67,49,53,32,83,80,82,69,65,68,58,32,79,70,70,83,69,84,32,32,32,32,32,32,32,32,77,65,88,32,68,73,83,84,65,78,67,69,32,32,32,32,32,32,32,32,71,82,79,85,80,32,73,78,84,69,82,86,65,76>>,
  <<67,49,54,32,71,69,79,80,72,79,78,69,83,58,32,80,69,82,32,71,82,79,85,80,32,32,32,32,32,83,80,65,67,73,78,71,32,32,32,32,32,70,82,69,81,85,69,78,67,89,32,32,32,32,32,77,70,71,32,32,32,32,32,32,32,32,32,32,77,79,68,69,76>>,
  <<67,49,55,32,32,32,32,32,80,65,84,84,69,82,78,58,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,76,69,78,71,84,72,32,32,32,32,32,32,32,32,87,73,68,84,72>>,
  <<67,49,56,32,84,82,65,67,69,83,32,83,79,82,84,69,68,32,66,89,58,32,82,69,67,79,82,68,32,32,32,32,32,67,68,80,32,32,32,32,32,79,84,72,69,82>>,
  <<67,49,57,32,65,77,80,76,73,84,85,68,69,32,82,69,67,79,86,69,82,89,58,32,78,79,78,69,32,32,32,32,32,32,83,80,72,69,82,73,67,65,76,32,68,73,86,32,32,32,32,32,32,32,65,71,67,32,32,32,32,79,84,72,69,82>>,
  <<67,50,48,32,77,65,80,32,80,82,79,74,69,67,84,73,79,78,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,90,79,78,69,32,73,68,32,32,32,32,32,32,32,67,79,79,82,68,73,78,65,84,69,32,85,78,73,84,83>>,
  <<67,50,49,32,80,82,79,67,69,83,83,73,78,71,58>>,
  <<67,50,50,32,80,82,79,67,69,83,83,73,78,71,58>>,
  <<67,50,51>>,
  <<67,50,52>>,
  <<67,50,53>>,
  <<67,50,54>>,
  <<67,50,55>>,
  <<67,50,56>>,
  <<67,50,57>>,
  <<67,51,48>>,
  <<67,51,49>>,
  <<67,51,50>>,
  <<67,51,51>>,
  <<67,51,52>>,
  <<67,51,53>>,
  <<67,51,54>>,
  <<67,51,55>>,
  <<67,51,56>>,
  <<67,51,57>>,
  <<67,52,48>> >>
EndMarker == [rev0 |-> <<69,78,68,32,69,66,67,68,73,67>>, rev1 |-> <<69,78,68,32,84,69,88,84,85,65,76,32,72,69,65,68,69,82>>]
=============================================================================
