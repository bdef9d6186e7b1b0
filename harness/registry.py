"""What each property's check runs."""


def segy(driver, **kw):
    return dict(dict(driver=driver, trace='TraceSegy', trace_cfg='TraceSegy.cfg', assumptions=SEGY_ASSUMPTIONS), **kw)


SEGY_ASSUMPTIONS = ['files of a few dozen traces and up to 32767 samples', 'IBM and IEEE samples are compared as their four bytes']

PROPS = {
    'C06': dict(
        models=[dict(module='CatalogMC', cfg='CatalogMC.cfg', cfg_thorough='CatalogMC_thorough.cfg'), dict(module='SurveyMC', cfg='SurveyMC.cfg')],
        gens=[dict(name='catalogs', module='CatalogMC', cfg='CatalogGen.cfg', cfg_thorough='CatalogGen_thorough.cfg')],
        driver='catalog', trace='TraceCatalog',
        assumptions=['keys are int32 integers or pairs of them, values int32; at most 300 keys in catalogs given item by item, 39000 in those given by rules (spec/Survey.tla)'],
    ),

    'C01': segy('roundtrip', models=[dict(module='FormatMC', cfg='FormatMC.cfg', cfg_thorough='FormatMC_thorough.cfg', workers=4)]),
    'C02': segy('layout', models=[dict(module='BytesMC', cfg='BytesMC.cfg')],
                only=['opens', 'unsuitable_file_refused', 'binary_header', 'text', 'all_headers', 'all_samples', 'header', 'field_names',
                      'written_bytes', 'textual_header_bytes', 'binary_header_bytes', 'write_completes']),
    'C03': segy('scan', models=[dict(module='ReaderMC', cfg='ReaderMC.cfg'), dict(module='BigFileMC', cfg='BigFileMC.cfg')],
                gens=[dict(name='files', module='ReaderMC', cfg='ReaderFiles.cfg')],
                only=['opens', 'trace_count', 'trace_lengths', 'max_samples', 'unsuitable_file_refused', 'count', 'all_traces', 'all_samples', 'samples', 'header', 'index_lookup']),
    'C04': segy('history', models=[dict(module='ReaderMC', cfg='ReaderMC.cfg', cfg_thorough='ReaderMC_thorough.cfg', workers=4)],
                gens=[dict(name='histories', module='ReaderMC', cfg='ReaderHist.cfg', simulate=(130, 1500), depth=30)],
                only=['opens', 'count', 'samples', 'header']),
    'C05': segy('geometry', models=[dict(module='GeometryMC', cfg='GeometryMC.cfg', cfg_thorough='GeometryMC_thorough.cfg', workers=3)],
                gens=[dict(name='geometries', module='GeometryMC', cfg='GeometryGen.cfg')],
                only=['opens', 'kind', 'dimensionality', 'index_kind', 'line_numbers', 'line_keys', 'cdp_numbers', 'index_lookup']),
    'C17': segy('progress', models=[dict(module='ReaderMC', cfg='ReaderMC.cfg'), dict(module='WriterMC', cfg='WriterMC.cfg', cfg_thorough='WriterMC_thorough.cfg')],
                only=['progress_in_range', 'progress_monotone', 'progress_ends_at_one', 'refusal_progress', 'error_propagates', 'file_unchanged',
                      'prefix_of_complete_file', 'bad_argument_refused', 'nothing_written', 'refused', 'file_intact']),
    'C18': segy('badargs', models=[dict(module='RefusalMC', cfg='RefusalMC.cfg')],
                gens=[dict(name='reasons', module='RefusalMC', cfg='RefusalGen.cfg', cfg_thorough='RefusalGen_thorough.cfg')],
                only=['accepted', 'refused', 'position_kept', 'file_intact', 'nothing_cached', 'unsuitable_file_refused', 'file_unchanged',
                      'bad_argument_refused', 'nothing_written', 'bad_data_refused']),
    'C19': segy('partial', models=[dict(module='WriterMC', cfg='WriterMC.cfg', cfg_thorough='WriterMC_thorough.cfg')],
                only=['prefix_of_complete_file', 'append_only', 'asks_in_order', 'streams', 'error_propagates', 'unsuitable_file_refused', 'opens',
                      'trace_count', 'all_traces', 'all_headers', 'all_samples', 'samples', 'write_completes', 'index_lookup', 'trace_lengths']),
    'C21': segy('delegate', models=[dict(module='DelegateMC', cfg='DelegateMC.cfg', cfg_thorough='DelegateMC_thorough.cfg', workers=4),
                                    dict(module='FormatMC', cfg='FormatMC.cfg', tier='thorough')],
                gens=[dict(name='chains', module='DelegateMC', cfg='DelegateGen.cfg', simulate=(200, 1600), depth=7)],
                only=['exposes_text', 'exposes_binary_header', 'exposes_ext', 'exposes_count', 'exposes_indexes', 'exposes_encoding', 'exposes_endian', 'exposes_dimensionality',
                      'exposes_format', 'exposes_source', 'exposes_headers', 'exposes_samples', 'exposes_parts', 'exposes_absence', 'write_completes', 'written_bytes', 'bad_data_refused']),
    'C12': segy('text', models=[dict(module='TextMC', cfg='TextMC.cfg', cfg_thorough='TextMC_thorough.cfg', workers=4)],
                only=['encoding_refused', 'nothing_written', 'text_refused', 'text_written', 'card_bytes', 'position_after', 'short_refused', 'undecodable_refused',
                      'cards_read', 'guess', 'position_kept', 'opens', 'unsuitable_file_refused', 'encoding', 'text', 'textual_header_bytes', 'write_completes', 'bad_data_refused']),
    'C13': segy('text', models=[dict(module='TextMC', cfg='TextMC.cfg', cfg_thorough='TextMC_thorough.cfg', workers=4)],
                gens=[dict(name='texts', module='TextMC', cfg='TextGen.cfg', cfg_thorough='TextGen_thorough.cfg')],
                only=['encoding_refused', 'nothing_written', 'pages_formatted', 'pages_refused', 'pages_written', 'position_after', 'pages_not_there_refused', 'pages_read',
                      'opens', 'unsuitable_file_refused', 'extended_headers', 'trace_count', 'trace_lengths', 'written_bytes', 'write_completes', 'all_traces', 'all_headers', 'all_samples']),
    'C14': segy('text', models=[dict(module='TextMC', cfg='TextMC.cfg', cfg_thorough='TextMC_thorough.cfg', workers=4)],
                only=['unknown_name_refused', 'standard_header', 'shape_refused', 'parsed']),
    'C07': dict(
        models=[dict(module='SortedSeqMC', cfg='SortedSeqMC.cfg', cfg_thorough='SortedSeqMC_thorough.cfg')],
        gens=[dict(name='items', module='SortedSeqMC', cfg='SortedSeqGen.cfg', cfg_thorough='SortedSeqGen_thorough.cfg')],
        driver='sortedseq', trace='TraceSorted',
        assumptions=['integers of 32 bits; at most some thirty items per sequence'],
    ),
    'C08': dict(
        models=[dict(module='HeaderCodecMC', cfg='HeaderCodecMC.cfg', cfg_thorough='HeaderCodecMC_thorough.cfg', workers=4)],
        gens=[dict(name='formats', module='HeaderCodecMC', cfg='HeaderCodecGen.cfg', cfg_thorough='HeaderCodecGen_thorough.cfg')],
        driver='headers', trace='TraceHeader',
        only=['format_accepted_or_refused', 'field_names', 'field_descriptions', 'record_length', 'unknown_part_refused', 'packed', 'unequal_refused', 'other_format_refused',
              'wrong_length_refused', 'unpacked', 'illegal_value_refused'],
        assumptions=['formats of up to 13 fields of 1, 2 or 4 bytes'],
    ),
    'C09': dict(
        models=[dict(module='HeaderValueMC', cfg='HeaderValueMC.cfg', cfg_thorough='HeaderValueMC_thorough.cfg')],
        gens=[dict(name='trails', module='HeaderValueMC', cfg='HeaderValueGen.cfg', simulate=(300, 4000), depth=40)],
        driver='headers', trace='TraceHeader',
        only=['bad_default_refused', 'outcome', 'value_held', 'value_kept', 'others_untouched', 'deletion_refused', 'equality'],
        assumptions=['up to four headers alive at once; values within 64 bits or of a few other types'],
    ),
    'C11': dict(
        models=[dict(module='PickleMC', cfg='PickleMC.cfg', cfg_thorough='PickleMC_thorough.cfg', workers=4), dict(module='HeaderValueMC', cfg='HeaderValueMC.cfg', cfg_thorough='HeaderValueMC_thorough.cfg')],
        gens=[dict(name='lives', module='PickleMC', cfg='PickleGen.cfg', simulate=(160, 1500), depth=18)],
        parts=[dict(driver='headers', trace='TraceHeader'), dict(driver='pickled', trace='TraceSegy', trace_cfg='TraceSegy.cfg')],
        only=['unpickles', 'original_untouched', 'unpickled_is_separate', 'packer_unpickles', 'unpickled_packs', 'unpickled_unpacks', 'other_version_refused',
              'reader_unpickles', 'reader_equivalent', 'reads_agree', 'original_undisturbed', 'not_restorable_refused',
              'pickled_or_refused', 'restored_or_refused', 'nothing_created', 'restored_shows_the_same', 'closed_refused', 'count', 'header', 'samples', 'all_traces',
              'all_headers', 'all_samples', 'line_numbers', 'line_keys', 'cdp_numbers', 'index_lookup', 'index_kind'],
        assumptions=SEGY_ASSUMPTIONS,
    ),
    'C15': dict(
        models=[dict(module='IbmFloatMC', cfg='IbmFloatReal.cfg'), dict(module='IbmFloatMC', cfg='IbmFloatMC.cfg')],
        driver='ibm', trace='TraceIbm', trace_cfg='TraceIbm.cfg',
        assumptions=['every exponent and sign with selected and random fractions, not all 2^32 patterns', 'real numbers are doubles, or integers and fractions a double can hold'],
    ),
    'C16': dict(
        models=[dict(module='IbmFloatMC', cfg='IbmFloatMC.cfg'), dict(module='IbmFloatMC', cfg='IbmFloatReal.cfg')],
        driver='ibm', trace='TraceIbm', trace_cfg='TraceIbm.cfg',
        assumptions=['every exponent and sign with selected and random fractions; double precision results are those of the host'],
    ),
    'C10': segy('cached', models=[dict(module='CacheMC', cfg='CacheMC.cfg', workers=3), dict(module='CacheMC', cfg='CacheOwn.cfg', cfg_thorough='CacheOwn_thorough.cfg')],
                gens=[dict(name='cache', module='CacheMC', cfg='CacheGen.cfg', simulate=(90, 900), depth=60)]),
    'C20': segy('extract', models=[dict(module='ExtractMC', cfg='ExtractMC.cfg', cfg_thorough='ExtractMC_thorough.cfg', workers=3)],
                gens=[dict(name='requests', module='ExtractMC', cfg='ExtractGen.cfg', simulate=(700, 8000), depth=40)],
                only=['extraction_refused', 'extracts', 'array_shape', 'array_cells', 'array_nulls', 'array_type', 'array_names', 'trace_cells']),
    'C22': segy('cli', models=[dict(module='CliMC', cfg='CliMC.cfg', cfg_thorough='CliMC_thorough.cfg', workers=3)],
                gens=[dict(name='commands', module='CliMC', cfg='CliGen.cfg', simulate=(240, 2000), depth=14)],
                only=['data_file_unchanged', 'unreadable_reported', 'exit_status', 'one_object', 'metadata', 'report_facts', 'report_filename', 'report_text', 'report_extended']),
}
