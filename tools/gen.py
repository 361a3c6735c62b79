#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), claimed=True, note='', tech='', state=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech,
                  observe=list(observe), claimed=claimed, note=note, tech=tech, state=list(state)))


B8 = 'generated BIFF8 streams written by an independent writer'

prop('C01', 'BIFF8 worksheet cells are read back exactly',
     'For every well-formed BIFF8 workbook, each cell written by any cell record kind (NUMBER, RK, MULRK, LABELSST, LABEL, RSTRING, BOOLERR, FORMULA with a number/text/boolean/error/empty-string result, BLANK, MULBLANK) is reported at its own row and column with the documented type and exactly the stored value and (with formatting_info) XF index. '
     'All other positions within the sheet are empty, and nrows/ncols are one more than the highest used row/column, whatever the order of the records, the DIMENSIONS record, or the contents of other sheets.',
     'every set of cells on the 65536x256 grid, every record kind, value, string and record order, formatting_info/ragged_rows on or off, several sheets',
     'Tests read a dozen fixed files saved by Excel in row order; record kinds, orders, sparse shapes and values outside those files are never exercised.',
     ['xlrd/sheet.py', 'xlrd/book.py', 'xlrd/biffh.py'],
     [('record dispatch in Sheet.read', 'xlrd/sheet.py Sheet.read'), ('cell storage put_cell_ragged/put_cell_unragged/tidy_dimensions', 'xlrd/sheet.py')],
     observe=['Sheet.cell/cell_type/cell_value/nrows/ncols/row_len'])
prop('C02', 'Compressed RK numbers decode to exactly the number they denote',
     'Every 32-bit RK value (in an RK or MULRK record) yields the IEEE double the file format defines for it: signed 30-bit integer or the top 30 bits of a double, divided by 100 when flagged, including sign, negative integers and boundary values.',
     'all 2^32 RK encodings', 'Only the handful of RK cells in sample files is ever decoded.',
     ['xlrd/sheet.py'], [('unpack_RK', 'xlrd/sheet.py unpack_RK')], observe=['Sheet.cell_value'])
prop('C03', 'Shared strings do not depend on how the table is split into CONTINUE records',
     'Every shared string, with its rich-text runs, is delivered exactly as written regardless of where the shared string table is broken into CONTINUE records (inside character data with or without a change of compression, between runs, inside phonetic data, between strings). '
     'A cell always receives the string and runs of its own index.',
     'all lists of strings (any Unicode text, rich text, phonetic blocks) and all legal break positions',
     'Whether a break falls inside a string depends on exact byte sizes; sample files contain at most one or two such breaks.',
     ['xlrd/book.py'], [('unpack_SST_table', 'xlrd/book.py'), ('handle_sst', 'xlrd/book.py')],
     observe=['Sheet.cell_value', 'Sheet.rich_text_runlist_map'])
prop('C04', 'Workbook contents do not depend on the container or on how the file is supplied',
     'The same workbook stream gives the same Book whether it is a bare stream or is stored in an OLE2 container as stream Workbook or Book, with any sector sizes (sectors starting at offset 512), fragmentation, sector order, mini-stream storage, directory tree shape or size, MSAT extension and surrounding streams. '
     'It also gives the same Book whether opened by file name (with or without mmap) or from file_contents (bytes or mmap). Any stream of a container, in any storage, is returned whole by CompDoc.get_named_stream and locate_named_stream, any number of times and in any order; for a name that is not in the directory they return None.',
     'all container layouts x all ways of supplying the file', 'Sample files each have a single layout produced by Excel.',
     ['xlrd/compdoc.py', 'xlrd/book.py', 'xlrd/__init__.py'],
     [('CompDoc', 'xlrd/compdoc.py'), ('biff2_8_load', 'xlrd/book.py')], over=('inputs', 'configurations'), observe=['open_workbook'])
prop('C05', 'Damaged OLE2 containers are detected, never looped over or silently misread',
     'Opening a container whose workbook stream has a sector chain that loops, runs into a sector used by the allocation tables, directory or mini-stream container, leaves the file, or does not match the recorded stream size raises an exception (inside the mini-stream, where only a chain that ends before the last record, loops or leaves it does), as does a container whose own table, directory or mini-stream chains loop, collide or leave the file; any other damage to header, tables or directory promptly either raises or returns a Book. '
     'Damage confined to other streams or free sectors never alters the Book. ignore_workbook_corruption=True only additionally accepts a workbook chain that shares sectors with other structures, and never changes what is read from an undamaged file.',
     'all single structural faults (header, MSAT, SAT, SSAT, directory) at every position of generated containers', 'One corrupted sample exists; fault position and kind are the quantifier.',
     ['xlrd/compdoc.py'], [('seen[] bookkeeping', 'xlrd/compdoc.py CompDoc'), ('_locate_stream/_get_stream', 'xlrd/compdoc.py')],
     over=('inputs', 'fault_sequences'), observe=['open_workbook raises CompDocError / returns'])
prop('C06', 'on_demand loading obeys the documented sheet lifecycle',
     'In any sequence of sheet access by index, name or iteration, sheet_loaded, unload_sheet and release_resources, a Book opened with on_demand=True loads exactly the sheets asked for, each with the same contents as in a fully loaded book, keeps returning the same loaded object until it is unloaded, and then reloads it equal. '
     'After release_resources (or leaving a with block) loaded sheets stay usable and loading another raises XLRDError; sheet_names and nsheets are always available; BIFF4 and earlier files behave as if on_demand were False.',
     'all operation histories on all books', 'Tests run two or three fixed sequences; lifecycle bugs need particular histories.',
     ['xlrd/book.py'], [('sheet_by_index/get_sheet/unload_sheet/release_resources', 'xlrd/book.py Book')], over=('histories', 'inputs'),
     observe=['Book.sheet_by_index', 'Book.sheet_loaded', 'Book.unload_sheet', 'Book.release_resources'])
prop('C07', 'Options do not change the data that is read',
     'formatting_info, on_demand, ragged_rows, use_mmap, verbosity and logfile do not change any cell value, cell type, sheet name, Name object or date mode: formatting_info only adds blank cells and formatting data, ragged_rows only removes trailing empty cells. '
     'All messages and diagnostics go to the given logfile and nothing is written to stdout or stderr, at any verbosity.',
     'all option combinations on all workbooks', 'Tests use default options on nearly every file; verbosity branches are never run.',
     ['xlrd/book.py', 'xlrd/sheet.py', 'xlrd/formatting.py', 'xlrd/formula.py', 'xlrd/compdoc.py'],
     [('option attributes on Book', 'xlrd/book.py biff2_8_load'), ('fprintf(self.logfile...)', 'xlrd/*.py')], over=('configurations', 'inputs'), observe=['open_workbook(...)'])
prop('C08', 'Sheet accessors agree with each other and with Python slice semantics',
     'cell, cell_type, cell_value, row, row_slice, row_types, row_values, row_len, col, col_slice, col_types, col_values, indexing (sheet[r], sheet[r, c]) and iteration all describe the same grid; start/end arguments, including negative and over-large ones, select what the corresponding Python slice selects, and negative row/column indices count from the end. '
     'Out-of-range indices raise IndexError.',
     'all grids x all index and slice arguments, rectangular and ragged', 'Tests check a few fixed arguments on one sheet.',
     ['xlrd/sheet.py'], [('row_slice/col_slice/col_values/col_types/...', 'xlrd/sheet.py Sheet')], observe=['Sheet access methods'])
prop('C09', 'Excel date serials and calendar values convert exactly both ways',
     'For every datemode and every representable moment, xldate_as_tuple and xldate_as_datetime agree with the calendar (1900 system with the phantom 29 Feb 1900, 1904 system) to the documented rounding, and xldate_from_date_tuple/time_tuple/datetime_tuple are their inverses. '
     'Negative, ambiguous (1900 system, 1 <= serial < 61), too large serials, bad datemodes and impossible dates or times raise exactly the documented XLDateError subclass.',
     'all floats x datemodes; all calendar dates and times', 'Tests sample ~30 dates; off-by-one and rounding errors sit at specific dates, eras and fractions.',
     ['xlrd/xldate.py'], [('xldate_as_tuple, xldate_as_datetime, xldate_from_*', 'xlrd/xldate.py')], observe=['xlrd.xldate'])
prop('C10', 'A number cell is a date exactly when its number format is a date format',
     'A numeric cell (from any number-carrying record, in any BIFF version) has type DATE if and only if the number format its XF refers to is a date format, with or without formatting_info; a format for which the file has a FORMAT record is classified by the string of that record (also when its key is one of the built-in codes), any other built-in code by the documented code ranges; strings are classified by their date/number characters after discarding quoted text, escaped, padding and fill characters, bracketed sections and literals such as General (a format with both kinds is a date format when the date characters outnumber the digit placeholders). '
     'Neither text, boolean and error cells nor the stored number are affected by the format.',
     'all format strings, all format codes, all XF tables, all BIFF versions', 'A short list of format strings is tested; classification depends on every character of the string.',
     ['xlrd/formatting.py', 'xlrd/sheet.py'], [('is_date_format_string', 'xlrd/formatting.py'), ('fmt_code_ranges', 'xlrd/formatting.py'), ('_xf_index_to_xl_type_map', 'xlrd/formatting.py xf_epilogue')], observe=['Sheet.cell_type', 'Book.format_map'])
prop('C11', 'Text of pre-Excel-97 files is decoded with the right encoding',
     'In BIFF2-7 files every string (cells, formula results, sheet names, font, format and defined names, notes, user name) is decoded with encoding_override if given, else the CODEPAGE record\'s encoding, else iso-8859-1, giving exactly the Unicode text that was encoded. '
     'BIFF8 text does not depend on the codepage, and an unknown encoding is reported by an exception instead of producing wrong text.',
     'all codepages x all encodable texts x override settings', 'No test file uses a codepage other than 1252 with non-ASCII text.',
     ['xlrd/book.py', 'xlrd/biffh.py', 'xlrd/sheet.py', 'xlrd/formatting.py'], [('derive_encoding', 'xlrd/book.py'), ('encoding_from_codepage', 'xlrd/biffh.py'), ('unpack_string', 'xlrd/biffh.py')], over=('inputs', 'configurations'), observe=['Book.encoding', 'Sheet.cell_value'])
prop('C12', 'Excel 2.x to 5.0/95 worksheets are read back exactly',
     'For every well-formed BIFF2, 3, 4, 4W, 5 and 7 file, cells of each record kind of that version (INTEGER, NUMBER, RK, LABEL, RSTRING, BOOLERR, FORMULA with STRING, BLANK, MULRK, ...) are reported at their own position with documented type, exact value and right XF (cell attributes or IXFE in BIFF2), and biff_version, datemode, sheet names and sheet count are right. The version is told from the BOF record whatever its length, build number and year, including BIFF2-4 contents under a BIFF5-8 style BOF record as third-party programs write.',
     'all cell sets per version', 'One BIFF4 sample is all the tests have below BIFF8 plus a few BIFF5 files.',
     ['xlrd/sheet.py', 'xlrd/book.py', 'xlrd/formatting.py'], [('bv <= 45 branch of Sheet.read', 'xlrd/sheet.py'), ('fixed_BIFF2_xfindex', 'xlrd/sheet.py'), ('fake_globals_get_sheet, handle_sheethdr', 'xlrd/book.py')], observe=['Sheet.cell', 'Book.biff_version'])
prop('C13', 'XF records are decoded field by field in every version',
     'With formatting_info=True every XF record of a BIFF2-8 file appears in xf_list at its own index with font index, format key, protection, alignment, border, background, parent style, style flag and attribute-validity flags equal to the stored bit fields, independently of one another. Borders, backgrounds, alignments and protections compare equal exactly when all their attributes are.',
     'all values of every bit field in every version', 'Tests look at one or two attributes of one file.',
     ['xlrd/formatting.py'], [('handle_xf', 'xlrd/formatting.py')], observe=['Book.xf_list'])
prop('C14', 'Fonts, number formats, palette and styles are reported as stored',
     'With formatting_info=True, font_list has every FONT record in order with Excel\'s unused index 4 skipped, format_map has every FORMAT record\'s key and text plus the standard built-in formats, colour_map maps standard, palette-overridden and system colour indexes to the right RGB triple or None, and style_name_map maps each named style to its built-in flag and XF. Font and Format objects compare equal exactly when all their attributes are.',
     'all font/format/palette/style tables and versions', 'Tests check a few entries of two sample files.',
     ['xlrd/formatting.py'], [('handle_font, handle_efont, handle_format, handle_palette, palette_epilogue, handle_style', 'xlrd/formatting.py')], observe=['Book.font_list, format_map, colour_map, palette_record, style_name_map'])
prop('C15', 'Row, column and cell formatting is resolved by the documented hierarchy',
     'With formatting_info=True, cell_xf_index returns the cell\'s own XF if it has one, else its row\'s default XF, else its column\'s, else 15; rowinfo_map and colinfo_map hold exactly the ROW and COLINFO data for the rows/columns covered; computed_column_width follows the documented precedence (BIFF3 and later). '
     'Without formatting_info these features are refused with XLRDError.',
     'all combinations of cell, ROW and COLINFO records', 'Tests cover a few rows and columns of one file.',
     ['xlrd/sheet.py'], [('cell_xf_index', 'xlrd/sheet.py'), ('ROW/COLINFO handling', 'xlrd/sheet.py Sheet.read'), ('computed_column_width', 'xlrd/sheet.py')], observe=['Sheet.cell_xf_index, rowinfo_map, colinfo_map, computed_column_width'])
prop('C16', 'Merged ranges, label ranges and page breaks are complete and exact',
     'With formatting_info=True, merged_cells lists every merged range of every MERGEDCELLS record as half-open (rlo, rhi, clo, chi), in order, and the sheet is extended to cover them with empty cells only; page breaks and row/column label ranges are reported likewise. Cell data is unaffected by them.',
     'all range lists and cell sets', 'One or two fixed ranges in sample files.',
     ['xlrd/sheet.py', 'xlrd/biffh.py'], [('unpack_cell_range_address_list_update_pos', 'xlrd/biffh.py'), ('tidy_dimensions', 'xlrd/sheet.py')], observe=['Sheet.merged_cells, row_label_ranges, col_label_ranges, horizontal_page_breaks, vertical_page_breaks'])
prop('C17', 'Hyperlinks are reported with exact range, kind, target and texts',
     'Every HLINK record yields, in order, one hyperlink object with its cell range, type (url, local file, unc, workbook, unknown), url or path, description, target frame, text mark and quick tip as stored; hyperlink_map maps exactly the covered cells to it, the last link winning.',
     'all HLINK option combinations, ranges and texts', 'Two sample links.',
     ['xlrd/sheet.py'], [('handle_hlink, handle_quicktip', 'xlrd/sheet.py')], observe=['Sheet.hyperlink_list, hyperlink_map'])
prop('C18', 'Cell notes and rich-text runs are attached to the right cells',
     'Every cell note (BIFF8 OBJ+TXO+NOTE or BIFF5 NOTE chains) appears in cell_note_map under its own cell with its full text, author, runs and flags, however objects are ordered or text is split over CONTINUE records. rich_text_runlist_map holds the formatting runs of every rich-text cell and of no other.',
     'all note and object sequences, texts and split positions', 'Sample files have one or two notes.',
     ['xlrd/sheet.py'], [('handle_obj, handle_txo, handle_note', 'xlrd/sheet.py'), ('RSTRING / LABELSST run lists', 'xlrd/sheet.py')], observe=['Sheet.cell_note_map, rich_text_runlist_map'])
prop('C19', 'Defined names are listed with the right text, scope and flags',
     'Every NAME record gives one Name object in name_obj_list in file order with its name (built-in codes translated), flags and scope (-1 global, else the index of the worksheet it belongs to, -2/-3 otherwise); name_and_scope_map and name_map index them by lower-case name and scope, name_map lists being in scope order.',
     'all name tables x sheet tables (including non-worksheets)', 'One sample file with a handful of names.',
     ['xlrd/book.py'], [('handle_name, names_epilogue', 'xlrd/book.py')], observe=['Book.name_obj_list, name_map, name_and_scope_map'])
prop('C20', 'Defined-name formulas evaluate to the right constant or reference',
     'For a name whose formula is built from constants, operators, references (2D/3D areas, unions, intersections, ranges), other names and supported functions, Name.result has the right kind and value: constants per Excel operator semantics, references as half-open coordinates of the right sheets, cell() and area2d() consistent with it. '
     'Formulas that cannot be evaluated (also those reaching through more than ten names, or giving texts over 32767 characters or unions over 8192 areas) give a result without a value, and never prevent the workbook from being opened.',
     'all token sequences over supported operators and operands', 'Tests cover ~10 formulas from one file.',
     ['xlrd/formula.py', 'xlrd/book.py'], [('evaluate_name_formula', 'xlrd/formula.py'), ('Name.cell, Name.area2d', 'xlrd/book.py')], over=('inputs', 'programs'), observe=['Name.result, Name.cell(), Name.area2d()'])
prop('C21', 'Formula text is rendered so that it means the same expression',
     'The text produced for a supported name or cell formula, when parsed with Excel\'s precedence and associativity rules, is the same expression tree as the token stream: operators, operand order, parentheses needed, function names and argument counts, quoting of strings, and reference text with the right relative/absolute markers.',
     'all expression trees over supported tokens', 'A dozen fixed formulas.',
     ['xlrd/formula.py'], [('decompile_formula', 'xlrd/formula.py'), ('evaluate_name_formula text', 'xlrd/formula.py')], over=('inputs', 'programs'), observe=['Operand.text'])
prop('C22', 'Cell and range reference text is exact for every coordinate',
     'colname, cellname, cellnameabs, rangename2d/3d and their relative and R1C1 forms produce the standard A1 (or R1C1) text for every row and column of the grid: bijective with coordinates, absolute/relative markers right, half-open ends converted to inclusive, sheet names quoted and doubled quotes when needed.',
     'all coordinates and sheet names', 'Tests check a few coordinates.',
     ['xlrd/formula.py', 'xlrd/book.py'], [('cellname, colname, rangename2d, rangename3d, quotedsheetname', 'xlrd/formula.py')], observe=['xlrd.cellname, colname, cellnameabs, rangename3d'])
prop('C23', 'File formats are recognised and unsupported ones refused by name',
     'inspect_format returns the format determined by the content (xls, xlsx, xlsb, ods, zip or None) identically for path and bytes, whatever the file is called and however ZIP members are ordered or spelt (case, slashes). open_workbook refuses xlsx, xlsb, ods and other ZIP files with an XLRDError naming that format.',
     'all signatures, ZIP member lists and name spellings', 'One sample file per format.',
     ['xlrd/__init__.py'], [('inspect_format, open_workbook', 'xlrd/__init__.py')], observe=['inspect_format', 'open_workbook'])
prop('C24', 'Unreadable workbooks are refused cleanly and resources are released',
     'Encrypted workbooks, workspace files, streams without a workbook BOF, missing workbook streams, empty files and truncated workbooks are refused with an exception (XLRDError where documented) and never returned as a partially read Book. '
     'Whenever opening fails no mmap or file handle stays open, and when it succeeds without on_demand the file can be removed and its handles are closed.',
     'all truncation points and refusal causes, supplied by file, mmap or bytes', 'One or two fixed bad files.',
     ['xlrd/book.py', 'xlrd/__init__.py'], [('open_workbook_xls try/except release_resources', 'xlrd/book.py'), ('getbof, handle_filepass', 'xlrd/book.py')], over=('inputs', 'fault_sequences', 'crash_points'), observe=['open_workbook', '/proc/self/fd'])
prop('C25', 'Records xlrd does not interpret never change what is read',
     'Inserting unknown or irrelevant records, embedded chart substreams, non-worksheet sheets, four zero bytes between sheet records, or padding between substreams and after the last sheet, anywhere the format allows, leaves every cell, name, format and sheet attribute unchanged.',
     'all insertion positions and record codes', 'Sample files contain fixed record mixes.',
     ['xlrd/sheet.py', 'xlrd/book.py'], [('fall-through branches of Sheet.read / parse_globals', 'xlrd/sheet.py, xlrd/book.py'), ('embedded BOF skip', 'xlrd/sheet.py')], observe=['open_workbook'])
prop('C26', 'The sheet list is the worksheets, in tab order, each with its own contents',
     'sheet_names, nsheets, sheets(), iteration, indexing by number or name and Sheet.number/name/visibility list exactly the worksheets in BOUNDSHEET order (charts, macro sheets and VB modules excluded), independent of the physical order of the sheet substreams; unknown names raise XLRDError and out-of-range indexes IndexError.',
     'all sheet tables and physical orders', 'Fixed books with three sheets.',
     ['xlrd/book.py'], [('handle_boundsheet', 'xlrd/book.py'), ('get_sheet', 'xlrd/book.py')], observe=['Book.sheet_names(), sheet_by_name(), sheets()'])
prop('C27', 'Formula results are read whatever records accompany the formula',
     'A formula cell gets its cached result even when SHRFMLA, ARRAY or TABLEOP records stand between it and its STRING record, when the STRING text is split over CONTINUE records with changing compression, and for any formula bytes. The formula tokens themselves never influence the value.',
     'all result kinds, texts, split positions, intervening records and token bytes', 'Two sample files with string results.',
     ['xlrd/sheet.py'], [('FORMULA branch and string_record_contents', 'xlrd/sheet.py')], observe=['Sheet.cell_value/type'])
prop('C28', 'Diagnostic dumps account for every record',
     'count_records reports, for any BIFF stream, exactly how many records of each kind it holds, and dump lists every record once, in order, with its offset, name, length and all its bytes, for bare and OLE2 files alike. The dump(f, header, footer, indent) method of every object (book, sheet, cell, XF and its parts, font, format, name, hyperlink, note, row and column info) writes one entry per attribute, nested objects indented, between header and footer, to f and nowhere else, and changes nothing.',
     'all record streams', 'No test runs them.',
     ['xlrd/biffh.py', 'xlrd/__init__.py'], [('biff_dump, biff_count_records, hex_char_dump', 'xlrd/biffh.py')], observe=['xlrd.dump, xlrd.count_records output'])
prop('C29', 'Sheet view settings and default sizes are reported as stored',
     'Window options, first visible cell, gridline colour, zoom factors (cached, SCL and the derived "cooked" values), panes, default row height and its flags (BIFF3-8), default and standard column widths of BIFF2-8 sheets are exactly those stored, with documented defaults when absent. (The colour index that goes with an RGB gridline colour of BIFF2-7 is a nearest colour of the workbook\'s colour table, with formatting_info=True.)',
     'all option bits and values per version', 'Tests check none or one file.',
     ['xlrd/sheet.py', 'xlrd/formatting.py'], [('WINDOW2, PANE, SCL, DEFAULTROWHEIGHT, DEFCOLWIDTH, STANDARDWIDTH, GCW branches', 'xlrd/sheet.py'), ('update_cooked_mag_factors', 'xlrd/sheet.py')], observe=['Sheet attributes'])
prop('C30', 'Books are independent of one another and opening is repeatable',
     'Opening the same bytes always gives the same Book, whatever other workbooks (of any version, good or bad) were opened before, are still open, are opened in between, or are being opened in other threads at the same time; nothing read from one book, nor changes a caller makes to the objects of one book, shows up in another.',
     'all interleavings of opens, loads and releases of several books, in one thread or several', 'Tests open one file at a time and never compare.',
     ['xlrd/book.py', 'xlrd/sheet.py', 'xlrd/formatting.py', 'xlrd/formula.py'], [('per-instance state set up in Book.__init__ / Sheet.__init__ / initialise_format_info', 'xlrd/book.py, xlrd/sheet.py')], over=('histories', 'inputs', 'schedules'), observe=['open_workbook'])
prop('C31', 'Arbitrary damage to a file never hangs the reader or leaks the file',
     'For any byte-level mutation of a workbook, with any options, opening either returns a Book all of whose sheets can be walked or raises an exception, within time and memory proportionate to the file, without writing to stdout/stderr when a logfile is given, and with no file handle or mapping left open after a failure.',
     'all mutated files', 'A single corrupt sample.',
     ['xlrd/compdoc.py', 'xlrd/book.py', 'xlrd/sheet.py', 'xlrd/formula.py', 'xlrd/formatting.py'], [('bounds checks, seen[] bookkeeping, release_resources on failure', 'xlrd/*.py')], over=('inputs', 'fault_sequences'), observe=['open_workbook'])
prop('C32', 'A pickled or copied book or sheet is the same book',
     'A Book (and any Sheet, with its book) can be pickled, or copied with copy.deepcopy, whenever the given logfile can be, and the copy answers every question exactly as the original does: cells, types, formatting, row and column attributes, names and the cells or areas they refer to, hyperlinks, merged ranges, loaded/unloaded state. '
     'This holds in another process which never opened a workbook, for books opened by name without mmap or from bytes, with or without on_demand, and copying leaves the original as it was.',
     'every workbook of every version x options x load histories x pickle protocols x the process that unpickles',
     'No test pickles anything; a state that lives outside the object (a module-level table, an attribute left out of __getstate__) shows only with a file that uses it and in another process.',
     ['xlrd/book.py', 'xlrd/sheet.py', 'xlrd/formatting.py'],
     [('Rowinfo.__getstate__/__setstate__', 'xlrd/sheet.py Rowinfo'), ('Book, Sheet, Name attributes', 'xlrd/book.py, xlrd/sheet.py')],
     over=('inputs', 'histories'), observe=['pickle.dumps/loads of Book and Sheet'])
prop('C33', 'The runxlrd.py script reports what the library reads',
     'For every command (show, 2rows, 3rows, ov, bench, hdr, names, name_dump, fonts, labels, xfc, biff_count, biff_dump) and combination of options, runxlrd.py prints for each file exactly what the library gives for it: every cell of the rows concerned with its location, type, value (dates as tuples, error codes as text) and XF index, every name, font, label range and count. '
     'A file that cannot be opened gets one "*** Open failed" report and the following files are still processed; with -l, standard output holds the report only; -s restricts the report to the sheet given by index or name.',
     'every set of readable and unreadable workbooks of every version x commands x options',
     'No test runs the script at all.',
     ['scripts/runxlrd.py'], [('main, show, show_row, show_names, show_labels, count_xfs', 'scripts/runxlrd.py')],
     over=('inputs', 'configurations'), observe=['standard output of runxlrd.py'])

prop('C34', 'Workbooks up to the size limits of the file format are read completely',
     'However many there are of a thing, up to what the format allows - shared strings (beyond 65536), characters of a text (32767) or note, rich-text runs, sheets, XFs, fonts, number formats, merged ranges, label ranges, page breaks, hyperlinks, defined names, notes, rows (65536 or 16384), columns (256) - every single one is read back with its own value, at its own index, and nothing else is.',
     'all counts up to the limits of the format, in particular around 8-, 12-, 15- and 16-bit and record-size boundaries',
     'The sample files have a handful of each.',
     ['xlrd/book.py', 'xlrd/sheet.py', 'xlrd/formatting.py'], [('unpack_SST_table, handle_boundsheet, handle_name', 'xlrd/book.py'), ('Sheet.read, put_cell, tidy_dimensions', 'xlrd/sheet.py'), ('handle_xf, handle_font, handle_format', 'xlrd/formatting.py')],
     over=('inputs',), observe=['every public collection of Book and Sheet'])


def main():
    import importlib.util, sys
    done = set(fn[:3].upper() for fn in os.listdir(os.path.join(HERE, 'checks')) if fn[:1] == 'c' and fn.endswith('.py'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                  observe_at=p['observe'], hook_needed=None))
            f.write(json.dumps(d) + '\n')
    from notes import NOTES
    checks = []
    na = []
    for p in P:
        if p['id'] in done:
            tech, note = NOTES[p['id']]
            checks.append(dict(property=p['id'], quick_cmd='./run %s --tier quick' % p['id'],
                               thorough_cmd='./run %s --tier thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=tech, level='exploration', level_note=note))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='sh ./setup.sh', checks=checks, not_applicable=na,
             notes='Every check imports xlrd from /repo\'s working tree; no hooks in /repo. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(P), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    main()
