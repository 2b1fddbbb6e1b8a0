"""Which contracts and which rules decide which property.

`units`: regular expressions (full match) over the qualified names of the analysed
functions; the contracts of every matching unit take part in the property.
`not`: units taken out again.  `kinds`: restricts the kinds of cases that are looked at.
"""

PROPS = {
    'C01': {
        'units': [r'LogFile\.LogFileParser\.(__init__|prepare_for_writes|discard_changes|apply_.*|parse_ntfs_records)',
                  r'vsc_mount\.(VSCFS2?\.__init__|__main__)', r'(ntfs_parser|fat_parser)\.__main__', r'ntfs_parser\.process_\w+',
                  r'.*FileSystemParser\.__init__', r'.*\.close', r'vsc_mount\.VSCFS2?\.destroy'],
        'kinds': {'effect', 'post'},
    },
    'C02': {'units': [r'vsc_mount\..*', r'ShadowCopy\.ShadowParser(TwoVolumes)?\.(read|seek|tell|select_shadow|shadows|read_at_exact_offset)']},
    'C03': {
        'units': [r'Attributes\..*', r'BootSector\..*', r'MFT\.(FileRecord|FileRecordSegment|AttributeRecord\w*|Unpack\w*|Decode\w*|Encode\w*|FileSystemParser|MasterFileTableParser\.(__init__|check_ntfs_version))(\..*)?', r'MFT\.ResolveAttributeType'],
        'not': [r'.*\.(print_information|__str__)', r'Attributes\.(ResolveFileAttributes)'],
    },
    'C04': {
        'units': [r'LogFile\.(RestartPage|RestartArea|ClientRecord|LogRecordPage|LogRecordHeader|NTFSRestartArea|NTFSLogRecord|OpenAttribute\w*|AttributeName\w*|ClientData|UnprotectSectors)(\..*)?',
                  r'LogFile\.LogFileParser\.(__init__|get_client_data)', r'USN\..*', r'MoveTable\..*', r'WSL\..*'],
        'not': [r'.*\.(print_information|__str__)', r'USN\.Resolve\w+'],
    },
    'C05': {
        'units': [r'ShadowCopy\.(?!ShadowParser).*', r'ShadowCopy\.ShadowParser(TwoVolumes)?\.(__init__|shadows|read_\w+|select_shadow)', r'PartitionTable\..*'],
        'not': [r'.*\.__str__'],
    },
    'C06': {
        'units': [r'(FAT|exFAT)\..*'],
        'not': [r'.*\.__str__', r'(FAT|exFAT)\.(ResolveFileAttributes)', r'.*Exception\..*'],
    },
    'C07': {'units': [r'ntfs_parser\..*', r'fat_parser\..*', r'.*\.print_information', r'.*\.__str__', r'.*\.ResolveFileAttributes', r'USN\.Resolve\w+', r'MFT\.(ResolveAttributeType|.*\.type_str)', r'MoveTable\.DecodeString', r'LogFile\.ResolveNTFSOperation']},
    'C08': {'units': [r'.*\.Resolve\w+', r'.*\.type_str', r'FAT\.(ParseNTByte|IsVolumeLabel|DirectoryEntries\.entries)', r'exFAT\.(DecodeEntryType|DecodeFlags|EntryTypeWithoutInUseBit|BR\.get_volumeflags|DirectoryEntries\.entries)', r'Attributes\..*\.(print_information|is_\w+|get_\w*flags)',
                      r'ntfs_parser\.(process_usn|process_log.*|process_mft|process_indx|process_movetable|format_source)', r'fat_parser\.(__main__|format_\w+)', r'LogFile\.(NTFSLogRecord|LogRecordHeader|LogRecordPage|RestartArea)\.(__str__|get_flags)', r'MFT\.(FileRecord\w*\.(get_flags|is_\w+)|AttributeRecord\w+\.(value_decoded|__str__))', r'MoveTable\..*(flag|flush|__str__|get_log_entry_type).*', r'ShadowCopy\..*(flags|__str__|get_item_type|get_type).*', r'WSL\..*print_information']},
    'C09': {'units': [r'MFT\.FileRecordSegment\.(__init__|parse_and_validate_multi_sector_header|apply_update_sequence_array|validate_file_record_segment_header|get_first_free_byte_offset)', r'LogFile\.(UnprotectSectors|RestartPage\.__init__|LogRecordPage\.__init__)', r'Attributes\.(VerifyAndUnprotectIndexSectors|IndexBuffer\.__init__|IndexAllocation\.(index_buffers|__init__|get_slack))', r'LogFile\.LogFileParser\.(__init__|get_log_record_page_by_number|log_record_pages|apply_\w+)', r'MFT\.MasterFileTableParser\.get_file_record_segment_by_number']},
    'C10': {'units': [r'.*\.chain', r'.*\.walk(\..*)?', r'.*\.read_chain', r'PartitionTable\.MBR\..*', r'MFT\.MasterFileTableParser\.build_full_paths', r'ShadowCopy\.ShadowParser(TwoVolumes)?\.(__init__|read\w*|select_shadow|translate_exact_offset)', r'MFT\.DecodeMappingPairs', r'.*\.(entries|index_entries|data_parsed|extended_attributes|usn_records|attributes|items|carve\w*|collect_lsns.*|clients|log_record_pages|file_records|extents|log_entries|log_sectors|index_buffers)', r'USN\.GetUsnRecord', r'MFT\.(SlackSpace|MetadataCarver)\..*', r'LogFile\.(AttributeNamesDumpParser|OpenAttributeTableDumpParser)\..*', r'LogFile\.LogFileParser\.(parse_ntfs_records|get_client_data|sort_lsns|get_wrapped_log_record_page_number|apply_\w+)', r'MFT\.FragmentedFile\.read\w*', r'ShadowCopy\.(Bitmap|DiffAreaTable|LocationDescription|ControlBlock)\..*']},
    'C11': {'units': [r'MFT\.(FileRecordSegment\.(attributes|__init__|validate_\w+|get_slack|parse_\w+)|AttributeRecord\w*\..*|DecodeMappingPairs|Unpack\w+|SlackSpace\..*|MetadataCarver\..*)', r'Attributes\.(Index\w+\..*|AttributeList\..*|EA\..*|FileName\..*|ReparsePoint\..*|StandardInformation\w*\..*|DuplicatedInformation\..*|ObjectID\..*|EAInformation\..*|Volume\w+\..*|Generic\w+\..*)', r'USN\..*', r'LogFile\.(?!LogFileParser)(?!ClientException).*', r'LogFile\.LogFileParser\.(get_client_data|collect_lsns.*|parse_ntfs_records)', r'WSL\..*', r'ShadowCopy\.(ControlBlock\w*|DiffAreaTable|LocationDescription|Bitmap|ApplicationInformation)\..*', r'MoveTable\.(Log\w+|Header|MoveTableParser)\..*', r'(FAT|exFAT)\.(DirectoryEntries|FAT|Bitmap)\..*', r'PartitionTable\..*'],
            'not': [r'.*\.(print_information|__str__)']},
    'C12': {'units': [r'BootSector\..*', r'MFT\.(FileRecordSegment|FileRecord|AttributeRecord\w*|FragmentedFile|MasterFileTableParser|FileSystemParser|Unpack\w*|DecodeMappingPairs)(\..*)?', r'Attributes\..*', r'LogFile\.(?!LogFileParser).*', r'LogFile\.LogFileParser\.(__init__|get_client_data|get_log_record_page_by_number|log_record_pages|collect_lsns.*|apply_\w+)', r'USN\..*', r'MoveTable\..*', r'ShadowCopy\.(?!ShadowParser).*', r'ShadowCopy\.ShadowParser(TwoVolumes)?\.(__init__|shadows|select_shadow|read_\w+)', r'PartitionTable\..*', r'WSL\..*'],
            'not': [r'.*\.(print_information|__str__)', r'.*\.Resolve\w+']},
    'C13': {'units': [r'FAT\.(BSBPB|FSINFO|FAT|FileSystemParser)\..*', r'FAT\.(GetCountOfClusters|IsFileSystem\w+)', r'exFAT\.(BR|FAT|FileSystemParser|Bitmap)\..*'],
            'not': [r'.*\.(walk.*|__str__)']},
    'C14': {'units': [r'PartitionTable\.GPT\..*', r'exFAT\.(BR\.(calculate_checksum|validate|get_checksum|__init__)|EntrySetChecksum|DirectoryEntries\.entries|FileSystemParser\.__init__)', r'FAT\.(BuildChecksum|BuildLongName|DirectoryEntries\.entries)', r'LogFile\.(UnprotectSectors|LogRecordPage\.__init__|RestartPage\.__init__|LogFileParser\.(__init__|get_log_record_page_by_number|log_record_pages|apply_\w+))']},
    'C15': {'units': [r'MFT\.(MasterFileTableParser|SlackSpace|FileRecord|FileRecordSegment|MetadataCarver|FileSystemParser|AttributeRecord\w+)\..*', r'LogFile\..*', r'USN\.(ChangeJournalParser|GetUsnRecord).*', r'MoveTable\.(MoveTableParser|LogSector|Header|LogEntry).*', r'(FAT|exFAT)\.(FileSystemParser|DirectoryEntries|FAT|BSBPB|BR|Bitmap)\..*', r'ntfs_parser\..*', r'fat_parser\.__main__', r'Attributes\.(Index\w+|AttributeList|EA|FileName|VerifyAnd\w+)(\..*)?', r'PartitionTable\..*', r'ShadowCopy\..*', r'WSL\..*', r'.*Exception\..*', r'BootSector\.BootSector\.__init__']},
    'C16': {'units': [r'.*\.Decode\w+', r'.*\.(get_\w*time\w*|get_timestamp|get_guid_timestamps|get_file_name|get_name|get_client_name|get_object_id|get_machine_id|get_droid|get_birth_droid)', r'FAT\.(ParseShortName|BuildLongName|ValidateShortName|DirectoryEntries\.entries)', r'exFAT\.(BuildName|BuildLabel|DirectoryEntries\.entries)', r'MFT\.(AttributeRecord\w+\.__init__|MetadataCarver\..*|SlackSpace\..*)', r'Attributes\.(EA\.data_parsed|AttributeList\.entries|StandardInformation\w*\..*|DuplicatedInformation\..*|VolumeName\..*)', r'WSL\..*', r'USN\..*get_(file_name|timestamp)', r'(ntfs_parser|fat_parser)\.format_\w+', r'ShadowCopy\.ControlBlockItem2\.get_timestamp', r'PartitionTable\.GPT\.read_gpt_partitions', r'LogFile\.AttributeName\w+\..*']},
    'C17': {'units': [r'MFT\.(FragmentedFile|FileSystemParser|MasterFileTableParser)\..*', r'ShadowCopy\.ShadowParser(TwoVolumes)?\..*', r'ShadowCopy\.(?!ShadowParser)\w+\.__init__', r'PartitionTable\..*', r'(FAT|exFAT)\.(FAT|FileSystemParser|Bitmap|BSBPB|BR)\..*', r'FAT\.FSINFO\.__init__', r'(ntfs_parser|fat_parser|vsc_mount)\.__main__', r'ntfs_parser\.(process_all_mft|process_mft|process_usn|process_indx)', r'vsc_mount\.VSCFS2?\.__init__'],
            'not': [r'.*\.__str__']},
    'C18': {'units': [r'MFT\.(DecodeMappingPairs|FragmentedFile\..*|FileRecord\.(get_data_runs|get_data_size|attributes)|AttributeRecordNonresident\..*|FileRecordSegment\.attributes|FileSystemParser\..*)', r'(FAT|exFAT)\.(FAT\..*|FileSystemParser\..*|BR\..*|BSBPB\.(fat_offset_and_size|get_bpb_secperclus|get_bpb_bytspersec|get_bpb_rootclus)|DirectoryEntries\.entries)', r'exFAT\.Bitmap\..*', r'Attributes\.(AttributeList\.entries|IndexAllocation\..*)'],
            'not': [r'.*\.__str__']},
    'C19': {'units': [r'MFT\.(MasterFileTableParser|FileRecord)\..*', r'MFT\.FileRecordSegment\.(get_base_file_record_segment|is_base_file_record_segment|get_sequence_number|get_master_file_table_number|is_in_use|__init__)', r'MFT\.(Decode|Encode)FileRecordSegmentReference', r'Attributes\.(FileName\.get_parent_directory|AttributeList\.entries|IndexEntry\.get_file_reference)', r'ntfs_parser\.(process_mft|process_usn|process_log.*|process_indx)']},
    'C20': {'units': [r'LogFile\.LogFileParser\..*', r'LogFile\.(LogRecordPage|LogRecordHeader|RestartArea|RestartPage|ClientData|NTFSLogRecord|ClientRecord)\..*'],
            'not': [r'.*\.__str__']},
    'C21': {'units': [r'ShadowCopy\..*'], 'not': [r'.*\.__str__']},
    'C22': {'units': [r'MFT\.FileRecord\w*\..*', r'MFT\.MasterFileTableParser\..*', r'FAT\.(DirectoryEntries\..*|FAT\..*|FileSystemParser\..*|ExpandPath|ParseShortName|IsVolumeLabel|BSBPB\.(is_volume_dirty|get_bs_dirty_flags))', r'exFAT\.(Bitmap\..*|DecodeEntryType|DecodeFlags|EntryTypeWithoutInUseBit|DirectoryEntries\..*|FileSystemParser\..*|FAT\..*|ExpandPath|BR\.get_volumeflags)', r'ntfs_parser\.(process_mft|process_indx|process_mem|process_usn|process_all_mft)', r'fat_parser\.(__main__|format_\w+)', r'MoveTable\.Header\.is_log_flushed', r'Attributes\.(StandardInformation\.is_\w+|IndexEntry\.get_flags|IndexHeader\.get_flags)']},
    'C23': {'units': [r'Attributes\..*', r'LogFile\.(?!LogFileParser).*', r'LogFile\.LogFileParser\.(get_log_record_page_by_number|__init__|log_record_pages|get_client_data|apply_\w+|collect_lsns.*)', r'MFT\.(FileRecord\w*|AttributeRecord\w*|Unpack\w*|FragmentedFile|MasterFileTableParser|MetadataCarver|SlackSpace|DecodeMappingPairs)(\..*)?', r'USN\..*', r'ShadowCopy\..*', r'(FAT|exFAT)\..*', r'WSL\..*', r'MoveTable\..*', r'PartitionTable\..*', r'BootSector\..*'],
            'not': [r'.*\.(__str__|print_information)', r'.*\.Resolve\w+', r'.*Exception\..*']},
    'C24': {'units': [r'MFT\.FragmentedFile\..*', r'ShadowCopy\.ShadowParser(TwoVolumes)?\..*', r'vsc_mount\.VSCFS2?\.(read|open|release|__init__|_construct\w+|destroy)'],
            'not': [r'.*\.__str__']},
    'C25': {'units': [r'MFT\.MasterFileTableParser\..*', r'(FAT|exFAT)\.(FileSystemParser\.walk.*|ExpandPath|BuildLongName|BuildName|ParseShortName|DirectoryEntries\.entries|FileSystemParser\.__init__)', r'Attributes\.FileName\..*', r'MFT\.FileRecord\.attributes', r'ntfs_parser\.(process_mft|process_usn|process_log.*|process_indx|process_mem)', r'fat_parser\.__main__', r'MFT\.DecodeFileRecordSegmentReference']},
    'C26': {'units': [r'ShadowCopy\.ShadowParser(TwoVolumes)?\..*', r'LogFile\.LogFileParser\..*', r'vsc_mount\.VSCFS2?\.(__init__|read|open|getattr|_construct\w+)', r'vsc_mount\.__main__', r'MFT\.(FragmentedFile|MasterFileTableParser|FileSystemParser)\..*'],
            'not': [r'.*\.__str__']},
    'C27': {'units': [r'MFT\.(FileRecord\w*|AttributeRecord\w*|SlackSpace|MasterFileTableParser|FragmentedFile|DecodeMappingPairs|FileSystemParser)(\..*)?', r'Attributes\.(IndexBuffer|IndexAllocation|IndexHeader|IndexRoot|AttributeList|Generic\w+)\..*'],
            'not': [r'.*\.__str__']},
    'C28': {'units': [r'MFT\.(SlackSpace|MetadataCarver)\..*', r'USN\.(ChangeJournalParser\..*|GetUsnRecord)', r'Attributes\.(FileName|DuplicatedInformation|StandardInformationPartial|Index\w+|DecodeFiletime)(\..*)?', r'ntfs_parser\.(process_mem|process_indx|process_mft|process_usn)', r'MFT\.FileRecord\w*\.(get_)?slack'],
            'not': [r'.*\.(print_information|__str__)']},
    'C29': {'units': [r'LogFile\..*', r'ntfs_parser\.process_log.*', r'MFT\.(Encode|Decode)FileRecordSegmentReference'],
            'not': [r'.*Exception\..*']},
    'C30': {'units': [r'(ntfs_parser|fat_parser|vsc_mount)\.(__main__|print_usage)', r'ntfs_parser\.process_\w+(\..*)?', r'vsc_mount\.VSCFS2?\.(__init__|destroy)', r'fat_parser\.custom_warn']},
}


def select(prop, index):
    """units of a property"""
    import re
    d = PROPS[prop]
    inc = [re.compile(r) for r in d['units']]
    exc = [re.compile(r) for r in d.get('not', ())]
    return [q for q in index if any(r.fullmatch(q) for r in inc) and not any(r.fullmatch(q) for r in exc)]


def relevant(prop, d):
    """does a difference of contracts speak about this property"""
    if prop in ('C12', 'C13'):
        return d['kind'] == 'raise' or d['note'] == 'condition' or d['plain'] or prop == 'C13' and d['kind'] == 'post'
    if prop == 'C23':
        return d['kind'] == 'raise' or d['note'] == 'condition' or d['plain']
    if prop == 'C15':
        return d['kind'] in ('raise', 'yield', 'step', 'effect', 'set') or d['pseudo'] or d['note'] == 'condition'
    return True
