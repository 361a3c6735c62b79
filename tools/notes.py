_T = 'Trusts the independent BIFF/OLE2 writer and reference model in /verif; xlrd is exercised through its public API only.'
_R = 'Random structured exploration, not exhaustive. '
NOTES = {
 'C01': ('Hypothesis round-trip vs independent BIFF8 writer', _R + _T),
 'C02': ('Property-based round-trip of RK encodings vs reference decoder', _R + 'All boundary classes of the 2^32 encodings are weighted. ' + _T),
 'C03': ('Hypothesis round-trip with generated CONTINUE splits', _R + _T),
 'C04': ('Metamorphic PBT: container layout vs bare stream', _R + 'Layouts with sectors starting at 512 only. ' + _T),
 'C05': ('Fault-injection PBT on generated OLE2 containers', _R + 'Single faults; strict oracle only for the fault classes named in the statement. ' + _T),
 'C08': ('Model-based PBT of accessors vs Python lists', _R + _T),
 'C09': ('PBT vs proleptic-Gregorian/1904 reference, exhaustive over days', _R + 'Every day of both date systems is covered in thorough; times sampled. ' + _T),
 'C12': ('Hypothesis round-trip vs independent BIFF2-7 writer', _R + _T),
 'C10': ('Grammar-based format-string PBT vs token-level reference', _R + 'Unclosed brackets and formats contradicting a built-in code are outside the domain. ' + _T),
 'C11': ('Hypothesis round-trip through Python codecs per codepage', _R + 'Codec tables of Python are trusted. ' + _T),
 'C13': ('Bit-field PBT vs documented XF layouts', _R + _T),
 'C14': ('Hypothesis round-trip of FONT/FORMAT/PALETTE/STYLE tables', _R + 'Default palettes are a frozen copy of the documented tables. ' + _T),
 'C15': ('Model-based PBT of the ROW/COLINFO/GCW hierarchy', _R + 'computed_column_width is checked for BIFF3-8 only. ' + _T),
 'C16': ('Hypothesis round-trip of range records among cells', _R + _T),
 'C17': ('Hypothesis round-trip vs independent HLINK writer', _R + 'Types with unusual flag combinations (GUID/time on UNC and workbook links, other monikers) are not generated. ' + _T),
 'C18': ('Hypothesis round-trip of OBJ/TXO/NOTE and rich-text records', _R + _T),
 'C19': ('Hypothesis round-trip of NAME tables vs a scope model', _R + _T),
 'C20': ('Grammar-based expression generation vs a reference evaluator', _R + 'Cases where Excel semantics and the implementation are both defensible (near-equal floats, locale-dependent collation) are not compared. ' + _T),
 'C21': ('Grammar-based expression generation, independent Excel-precedence parser', _R + 'Array constants and functions outside the table are not generated. ' + _T),
 'C22': ('Hypothesis vs closed-form A1/R1C1 oracle and prefix parser', _R + 'All 256 columns are enumerated. ' + _T),
 'C23': ('Hypothesis-generated ZIP/OLE2/BIFF/junk inputs vs signature and content-type model', _R + 'ZIP inputs are made with zipfile; archives whose comment imitates an end-of-directory record are excluded. ' + _T),
 'C24': ('Fault-injection PBT with descriptor and mapping accounting', _R + 'Truncation of files at every kind of point; resource accounting through /proc/self/fd, /proc/self/maps and wrapped open. ' + _T),
 'C26': ('Hypothesis-generated sheet directories vs a list model', _R + 'Negative indices are outside the domain. ' + _T),
 'C27': ('Hypothesis-generated formula records vs the result they were given', _R + 'NaN results are not generated (Excel stores none). ' + _T),
 'C28': ('Hypothesis-generated record streams vs an independent parser of the dump', _R + 'Record names are compared with a frozen copy of the documented table. ' + _T),
 'C29': ('Bit-field PBT of view and size records in every version', _R + 'The colour table needed for RGB gridline colours exists only with formatting_info. ' + _T),
 'C06': ('Stateful model-based PBT of the sheet lifecycle', _R + 'Histories of up to a few dozen operations on generated books of every version. ' + _T),
 'C07': ('Metamorphic PBT over option combinations', _R + 'A second sub-check damages one field or record of a workbook and demands the same outcome (same data, or refused) and the same warnings at every verbosity. stdout and stderr are captured at file descriptor level. ' + _T),
 'C25': ('Metamorphic PBT: insert uninterpreted records, compare', _R + 'Insertion between the record groups of generated workbooks; sheets are added at the end of the sheet list where formulas refer to sheets by number. ' + _T),
 'C30': ('Stateful differential PBT, pristine forked processes as oracle', _R + 'Thread schedules switch at source lines of xlrd (deterministic, replayable). ' + _T),
 'C31': ('Mutation fuzzing of generated and sample workbooks', _R + 'CPU and address-space limits stand for "proportionate"; files announcing more than 300000 hyperlinked cells are skipped (hyperlink_map has one entry per cell). ' + _T),
 'C32': ('Round-trip PBT over pickle/deepcopy, in-process and in a fresh process', _R + 'Log files that cannot be pickled (sys.stdout) and memory-mapped on-demand books are outside. ' + _T),
 'C34': ('Hypothesis-generated large workbooks vs the generated contents', _R + 'One dimension is large at a time. ' + _T),
 'C33': ('Differential PBT: script output against the library', _R + 'hotshot and profile are not run; the script runs in-process (runpy). ' + _T),
}
