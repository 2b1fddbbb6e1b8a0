"""Demonstrations of the genuine defects found (see DESIGN.md, "Findings").

   python3 findings/demos.py [name ...]      (REPO=/path/to/tree, default /repo)

Not used by any check: each function runs the real code on a failing input and
returns True when the code behaves as the property demands.  Everything is done
on in-memory data.
"""
import io, os, signal, struct, sys, uuid
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
from dfir_ntfs import ShadowCopy, WSL, LogFile, USN          # noqa: E402
from dfir_ntfs.addons import FAT, exFAT                      # noqa: E402


class Late(Exception):
    pass


def limited(fn, seconds=3):
    def stop(*a):
        raise Late()
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        return fn()
    finally:
        signal.alarm(0)


def shadow_control_block_cycle():
    """C10: a control block naming itself as the next one."""
    g = ShadowCopy.VSP_DIFF_AREA_FILE_GUID
    vol = bytearray(0x10000)
    sb = g + struct.pack('<LLQQQ', 2, 1, 7680, 7680, 0)
    vol[3:11] = b'NTFS    '
    vol[7680:7680 + len(sb)] = sb
    vol[7680 + 48:7680 + 56] = struct.pack('<Q', 0x4000)
    cb = g + struct.pack('<LLQQQ', 2, 2, 0, 0x4000, 0x4000)
    vol[0x4000:0x4000 + len(cb)] = cb
    try:
        p = limited(lambda: ShadowCopy.ShadowParser(io.BytesIO(bytes(vol))))
    except Late:
        return False
    return len(p.control_blocks) == 1


def wsl_time_overflow():
    """C16: a Unix time stamp that no datetime can hold."""
    try:
        return WSL.DecodeUnixtime(2 ** 62, 0) is None
    except OverflowError:
        return False


def _exfat_dir(name, cluster, size, ts, deleted):
    """Three directory entries of one sub-directory."""
    file_ = bytearray(32)
    file_[0] = 0x05 if deleted else 0x85
    file_[1] = 2
    file_[4:6] = struct.pack('<H', 0x10)
    file_[12:16] = struct.pack('<L', ts)
    se = bytearray(32)
    se[0] = 0x40 if deleted else 0xC0
    se[1] = 3
    se[3] = len(name)
    se[8:16] = struct.pack('<Q', size)
    se[20:24] = struct.pack('<L', cluster)
    se[24:32] = struct.pack('<Q', size)
    fn = bytearray(32)
    fn[0] = 0x41 if deleted else 0xC1
    fn[2:2 + 2 * len(name)] = name.encode('utf-16le')
    buf = file_ + se + fn
    buf[2:4] = struct.pack('<H', exFAT.EntrySetChecksum(bytes(buf)))
    return bytes(buf)


class _Walker(exFAT.FileSystemParser):
    """The real walk over clusters held in a dictionary."""
    def __init__(self, clusters, allocated):
        self.clusters = clusters

        class BR:
            def get_firstclusterofrootdirectory(s):
                return 4

        class BM:
            def is_allocated(s, c):
                return c in allocated
        self.br, self.bm = BR(), BM()

    def read_chain(self, first, size=None, no_fat_chain=False):
        buf = self.clusters[first]
        return buf if size is None else buf[:size]


def _walk(entries, allocated):
    root = b''.join(entries).ljust(512, b'\0')
    w = _Walker({4: root, 9: bytes(512), 10: bytes(512)}, allocated)
    return [x.name for x in w.walk() if type(x) is exFAT.FileEntry]


def exfat_missing_time():
    """C15: two deleted entries of one reallocated directory, no valid time."""
    e = _exfat_dir('d', 9, 512, 0, True)
    ok = _exfat_dir('z', 10, 512, 0x5A210000, False)
    try:
        return any(n.endswith('z') for n in _walk([e, e, ok], {4, 9, 10}))
    except TypeError:
        return False


def exfat_odd_directory_size():
    """C15: a sub-directory whose recorded size is 100 bytes."""
    try:
        return any(n.endswith('z') for n in _walk([_exfat_dir('d', 9, 100, 0x5A210000, False),
                              _exfat_dir('z', 10, 512, 0x5A210000, False)], {4, 9, 10}))
    except exFAT.DirectoryEntriesException:
        return False


def fat_empty_orphan_name():
    """C15: an orphan long entry that decodes to an empty name."""
    lfn = bytearray(32)
    lfn[0] = 0x41
    lfn[11] = 0x0F
    lfn[13] = 0x77
    short = bytearray(b'FILE    TXT' + bytes(21))
    short[11] = 0x20
    short[24:26] = struct.pack('<H', 0x5A21)
    buf = bytes(lfn + short).ljust(512, b'\0')
    try:
        names = [FAT.ExpandPath('/sub/', x) for x in FAT.DirectoryEntries(buf).entries()]
    except TypeError:
        return False
    return any(getattr(x, 'short_name', '') == '/sub/FILE.TXT' for x in names)


def _log():
    path = os.path.join(REPO, 'test_data')
    import glob
    for p in sorted(glob.glob(path + '/**/*', recursive=True)):
        if 'logfile' in os.path.basename(p).lower() and os.path.isfile(p):
            data = open(p, 'rb').read()
            try:
                lf = LogFile.LogFileParser(io.BytesIO(data))
                items = list(lf.parse_ntfs_records(False))
            except Exception:
                continue
            if len(items) > 20 and any(type(i) is LogFile.NTFSRestartArea for i in items):
                return data, lf, items
    raise SystemExit('no sample log')


def _place(lf, lsn):
    page, offset = lf.lsn_to_offset(lsn)
    return page * lf.log_page_size + offset


def log_without_restart_area():
    """C15: no NTFS restart area among the log records."""
    data, lf, items = _log()
    data = bytearray(data)
    for i in items:
        if type(i) is LogFile.NTFSRestartArea:
            p = _place(lf, i.lsn)
            data[p + 32:p + 36] = struct.pack('<L', 9)
    try:
        n = len(list(LogFile.LogFileParser(io.BytesIO(bytes(data))).parse_ntfs_records(False)))
    except AttributeError:
        return False
    return n > 0


def log_record_with_short_data():
    """C15: one log record with eight bytes of client data."""
    data, lf, items = _log()
    last = [i for i in items if type(i) is LogFile.NTFSLogRecord][-1]
    data = bytearray(data)
    p = _place(lf, last.lsn)
    data[p + 24:p + 28] = struct.pack('<L', 8)
    try:
        n = len(list(LogFile.LogFileParser(io.BytesIO(bytes(data))).parse_ntfs_records(False)))
    except LogFile.ClientException:
        return False
    return n > 0


def log_record_with_bad_redo_offset():
    """C15: one attribute-opening log record whose redo data overlap its header."""
    data, lf, items = _log()
    rec = [i for i in items if type(i) is LogFile.NTFSLogRecord
           and i.get_redo_operation() == LogFile.OpenNonresidentAttribute and i.get_redo_length() > 0][-1]
    data = bytearray(data)
    p = _place(lf, rec.lsn) + lf.record_header_length
    data[p + 4:p + 6] = struct.pack('<H', 5)
    try:
        n = len(list(LogFile.LogFileParser(io.BytesIO(bytes(data))).parse_ntfs_records(False)))
    except LogFile.ClientException:
        return False
    return n > 1


def usn_truncated_name():
    """C15: one journal record whose file name lies beyond the record."""
    rec = bytearray(72)
    rec[0:8] = struct.pack('<LHH', 72, 2, 0)
    rec[24:32] = struct.pack('<Q', 0)
    rec[32:40] = struct.pack('<Q', 132000000000000000)
    rec[56:60] = struct.pack('<HH', 60, 60)
    import importlib.util, importlib.machinery
    ldr = importlib.machinery.SourceFileLoader('ntfs_parser_s', os.path.join(REPO, 'ntfs_parser'))
    spec = importlib.util.spec_from_loader('ntfs_parser_s', ldr)
    mod = importlib.util.module_from_spec(spec)
    argv, sys.argv = sys.argv, ['ntfs_parser']
    try:
        try:
            ldr.exec_module(mod)
        except SystemExit:
            pass
    finally:
        sys.argv = argv
    rows = []

    class W:
        def writerow(self, r):
            rows.append(r)

    class M:
        class MasterFileTableException(Exception):
            pass

        class MasterFileTableParser:
            def __init__(self, f):
                pass

            def get_file_record_by_number(self, *a):
                raise M.MasterFileTableException()
        DecodeFileRecordSegmentReference = staticmethod(lambda x: (0, 0))

    class U:
        ChangeJournalParser = USN.ChangeJournalParser
        USN_RECORD_V2_OR_V3 = USN.USN_RECORD_V2_OR_V3
        ResolveSourceCodes = staticmethod(USN.ResolveSourceCodes)
        ResolveReasonCodes = staticmethod(USN.ResolveReasonCodes)
    mod.MFT, mod.USN = M, U
    mod.csv_writer, mod.input_file, mod.input_mft = W(), io.BytesIO(bytes(rec).ljust(4096, b'\0')), None
    try:
        mod.process_usn()
    except ValueError:
        return False
    return len(rows) == 2


def fragmented_read_past_end():
    """C24: reading more than the file holds."""
    from dfir_ntfs import MFT
    f = MFT.FragmentedFile(io.BytesIO(bytes(range(256)) * 8), 0, 512, [(1, 2)], 700)
    a = f.read(4096)
    f.seek(0)
    return a == f.read() and len(a) == 700 and f.tell() == 700


ALL = [fragmented_read_past_end, shadow_control_block_cycle, wsl_time_overflow, exfat_missing_time, exfat_odd_directory_size,
       fat_empty_orphan_name, log_without_restart_area, log_record_with_short_data,
       log_record_with_bad_redo_offset, usn_truncated_name]

if __name__ == '__main__':
    want = sys.argv[1:]
    bad = 0
    for f in ALL:
        if want and f.__name__ not in want:
            continue
        try:
            ok = f()
        except Exception as e:      # a demonstration that does not fit the tree
            ok = 'error: %s: %s' % (type(e).__name__, e)
        print(f.__name__, ok)
        bad |= ok is not True
    sys.exit(bad)
