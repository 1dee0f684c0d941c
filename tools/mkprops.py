#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are kept here, readable)."""
import json, os
T='TestingFramework/'; F='FileUtilities/'; I='itktf/'
RT=T+'tfRegressionTest.cpp'; ME=T+'tfMeasurement.cpp'; MH=T+'tfMeasurement.h'; MV=T+'tfMeasurementVisitor.cpp'
B6=T+'tfBase64.cpp'; DI=T+'tfDiff.cpp'; PN=F+'PathName.cpp'; FU=F+'FileUtilities.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('P01','A comparing run reports exactly the number of mismatches',
 'When a test is run against a readable, well-formed baseline and returns its expected value, the result of the run is the number of measurements which did not match the baseline. It is 0 (success) if and only if every measurement that was made matched the one recorded at its position, whatever the number, order, type, name and content of the measurements and whatever happens to the baseline file or the working directory during the run.',
 ['inputs','programs','histories'],'every baseline, every sequence of measurements (matching, differing, unmatched, in any order and number, including none and more than recorded), every expected return value',
 'The tests run a handful of fixed scripts with at most a few measurements and one or two mismatches; a miscount needs a particular mixture, length or order.',
 [RT,T+'tfRegressionTest.h'],[('count of mismatches','RegressionTest::inputUnmatched, UnmatchedMeasurement, DifferenceMeasurement'),('result of a run','RegressionTest::Main'),('dispatch per measurement','RegressionTest::CompareMeasurement')],['return value of Main','output stream'])
p('P02','A run which is aborted or cannot do its job never succeeds',
 'A run whose arguments are unusable (an option without a value, an unreadable baseline or search directory), whose baseline is missing or malformed, whose output file cannot be created, or which is ended by an exception of any type at any point ends, in bounded time, with a result which is not success. This holds in recording and in comparing mode, for every expected return value, and the test itself is not started when the preparation failed.',
 ['fault_sequences','crash_points','inputs'],'every kind of fault at every point of a run: each option, each defect of the baseline text, each exception type thrown before, between and after measurements, each expected return value',
 'One test throws one exception type in one place; nothing tests unusable options or malformed baselines.',
 [RT],[('argument errors','RegressionTest::ParseAndRemoveArguments'),('opening and reading','RegressionTest::BeginMeasurement, ReadXMLInput'),('catching','RegressionTest::Main')],['return value of Main','termination'])
p('P03','The expected return value decides before the comparison does',
 'When the test returns a value other than the expected one (0, or the one set by the program or by -R, the last one winning), the result of the run is the returned value, however many measurements matched. When it returns the expected value the result is that of the comparison, or success when nothing was compared, so the expected value itself is never reported as a failure.',
 ['inputs','configurations'],'every pair of returned and expected value (negative, zero, positive, large), given by the program or by -R (decimal, signed, repeated), recording or comparing, with and without mismatches',
 'The argument tests use the values 0 and 1 only, with matching measurements.',
 [RT],[('expected return','RegressionTest::SetExpectedReturn and -R'),('result of a run','RegressionTest::Main')],['return value of Main'])
p('P04','Measurements are paired with the baseline by position',
 'The k-th measurement of a comparing run is compared with the k-th measurement of the baseline and with no other. If the names or types differ, or the baseline has no k-th measurement, it is unmatched; every earlier and later measurement is still judged against its own position.',
 ['inputs','histories'],'every baseline and every sequence of measurements, including duplicate names, insertions, deletions, permutations, type changes and runs longer than the baseline',
 'The tests compare sequences which are identical or differ in one place; a shift or skip needs at least two mismatches of different kinds, or duplicate names.',
 [RT],[('queue of baseline measurements','RegressionTest::CompareMeasurement, Input')],['output stream','return value of each measurement'])
p('P05','Every mismatch is reported exactly once, faithfully and in order',
 'A comparing run writes to its output, in the order of the measurements, exactly one report for each measurement which did not match and nothing for one which did: an unmatched measurement with its own type and content under its name prefixed "Unmatched ", a different plain text as one "Difference " measurement with the line difference from baseline to test, and any other difference as the test measurement and then the baseline measurement, prefixed "Test " and "Baseline ", each with its own content. The reports are readable as markup whatever the names and contents are.',
 ['inputs','histories'],'every sequence of measurements and baselines, all types, names and contents with markup characters, to a file and to the standard output',
 'The tests only look at the return value; no test looks at a report.',
 [RT,MV],[('unmatched report','RegressionTest::UnmatchedMeasurement'),('difference reports','DifferenceVisitor::Visit'),('printing','Measurement::Print')],['output stream'])
p('P06','A recording is one well-formed document with every measurement in order',
 'A recording run writes one well-formed XML document whose root holds exactly the measurements that were made, in the order they were made, each with its exact name, type and content, and nothing else. This holds for every name and content of printable characters, tabs, line feeds and carriage returns (including markup characters and text which looks like markup), every length, and every host the test runs on.',
 ['inputs','programs'],'every sequence of measurements of every type, names and contents over printable ASCII with tab and newline, lengths 0 to several thousand, extreme numeric values, any host name',
 'The two output tests write a fixed set of plain names and contents and only check that the run returns 0.',
 [RT,ME],[('document frame','RegressionTest::WriteXMLOutputStart, WriteXMLOutputEnd'),('escaping','Measurement::ApplyEscapeSequences, PrintStartTag, PrintContent')],['output file'])
p('P07','A recording replayed by the same test matches; a changed one does not',
 'A test which is compared with a recording it made itself matches completely. If any single measurement is changed beyond its tolerance, renamed, given another type, or exchanged with a different neighbour, or one is added, the comparison fails, and with exactly as many mismatches as measurements that changed. (A number counts as it is recorded: with 7 significant digits for a float, 16 for a double, and all of them for an integer.)',
 ['programs','inputs'],'every sequence of measurements (types, names, contents and values over their whole range) and every single edit of it',
 'The baselines of the tests were recorded once for fixed contents; nothing records and compares in one test, and edits are not tried.',
 [RT,ME,MH],[('record','RegressionTest::Measurement* without a baseline'),('compare','RegressionTest::CompareMeasurement, ReadXMLInput'),('value to text','IntegerNumeric::SetValue, FloatNumeric::SetValue, DoubleNumeric::SetValue')],['output file','return value of Main'])
p('P08','An interrupted recording is never accepted as success or as baseline',
 'If a recording run dies, is ended by an exception, or cannot write its output completely at any point, then it does not report success, and what it left behind is rejected (not success) when used as a baseline, even by a test which makes no measurements or just those which were written. Equally every proper initial part of a recorded document which lacks its end is rejected.',
 ['crash_points','fault_sequences'],'every byte position at which writing can stop, every point of the test at which it can be killed or throw, and every prefix of a recorded document',
 'No test interrupts a recording or reads a truncated document; the number of cut positions is the size of the document.',
 [RT],[('end of the document','RegressionTest::EndMeasurement, WriteXMLOutputEnd'),('end of the baseline','RegressionTest::ReadXMLInput')],['return value of Main'])
p('P09','What a baseline means depends only on its XML content',
 'A baseline is read as the list of its measurements, with exact names, types and contents, whatever the size of the file and wherever the boundaries of the read blocks fall, and whatever way of writing the same XML was used: line breaks and comments between measurements, the order and quotes of attributes, entity and character references, CDATA sections, empty elements, processing instructions. Elements which are not measurements contribute nothing and disturb nothing around them.',
 ['inputs'],'every well-formed ASCII document: sizes around the multiples of the block size and far above, every alignment of tags, references and contents to block boundaries, all equivalent spellings',
 'All baselines of the tests are smaller than one read block and have the layout the framework itself writes.',
 [RT],[('block-wise reading','RegressionTest::ReadXMLInput'),('element handlers','start, end, data in tfRegressionTest.cpp')],['verdict and report of each measurement'])
p('P10','Framework options are consumed, all other arguments reach the test untouched',
 'The options -I, -O, -R and -P, each with its value, are taken from the beginning of the command line, in any order and number, the last -I, -O and -R winning and a later -P being searched before the earlier ones. The test gets the program name followed by exactly the arguments from the first one which is not such an option, complete and in order, even if they look like options.',
 ['inputs'],'every command line built from the four options, their values and other words, of any length',
 'Eight fixed command lines with at most two options are tested.',
 [RT],[('parsing','RegressionTest::ParseAndRemoveArguments')],['arguments of Test','files read and written'])
p('P11','Tolerant numeric comparison is the documented relation',
 'A tolerant comparison of two finite numbers u and v with relative tolerance e matches if and only if |u-v| <= |e|*|u| or |u-v| <= |e|*|v| or both are smaller in magnitude than the machine epsilon of the type (for integers: never by that rule); it is symmetric, and a number matches itself. It holds over the whole range of the types without overflow, a tolerance of 0 means an exact comparison, and a content which is not a finite number only matches the identical text.',
 ['inputs','configurations'],'all pairs of integers (full long range), floats and doubles, all tolerances, tolerant and not, including not-a-number, infinities and text which is no number',
 'The tests compare a few equal values with the default tolerance.',
 [MH,MV,RT],[('relation','NumericData::_IsEqualTolerant'),('selection','CompareVisitor::Visit, SetTolerance'),('parsing','IntegerNumeric::GetValue, FloatNumeric::GetValue, DoubleNumeric::GetValue')],['verdict of each measurement'])
p('P12','Without tolerance two measurements match only if identical in content',
 'Two text, string or boolean measurements, and numeric ones compared without tolerance, of the same name and type match if and only if their contents are the same sequence of characters; a difference in one character, in length, in case, in white space or at either end is a mismatch. The relation between measurement objects is reflexive, symmetric and transitive, and false when name or type differ.',
 ['inputs'],'all pairs of names, types and contents, lengths 0 to several thousand, differing in one position anywhere',
 'The tests compare short identical contents and two or three different ones.',
 [ME,MV],[('equality','DataMeasurement::IsEqual, Measurement::operator=='),('selection','CompareVisitor::Visit')],['verdict of each measurement','result of =='])
p('P13','A file measurement is judged by the contents of the files',
 'A text file measurement matches if and only if its file and the baseline file have the same content, byte by byte, for any size; the baseline file is the one of the recorded base name in the first search directory which has it, else the recorded name itself. A file measurement and a text measurement of the same name and type match when the file content is that text; a file which cannot be opened never matches a named measurement, and a recording holds only the base name of the file.',
 ['inputs','configurations'],'all file contents and sizes (empty, without final newline, several thousand bytes), all search paths in which the name occurs never, once or several times, missing files on either side',
 'One test compares one three-line file with itself.',
 [RT,ME],[('location of the baseline file','RegressionTest::CompareMeasurement'),('reading','MeasurementFile::Load'),('comparison','MeasurementFile::IsEqual, DataMeasurement::IsEqual')],['verdict of each measurement','recorded document'])
p('P14','A search finds the first directory which has the file, or nothing',
 'Searching a list of directories for a name returns the path in the first directory, in list order, which has a regular file (or a link to one) of that name, and an empty path when none has, or the list is empty; directories, sockets, pipes and dangling links of that name are passed over. The predicates for files, directories, existence and access agree with the file system, also after it changed.',
 ['inputs','configurations','histories'],'all small directory trees with files, directories, links (to files, directories, nothing), pipes, and all lists over them, absolute and relative, with missing and repeated entries, and changes between calls',
 'The tests use one directory with one regular file.',
 [PN],[('search','PathName::SearchPathList'),('predicates','PathName::IsFile, IsDirectory, Exists, IsReadable, IsWritable')],['returned path'])
p('P15','Path names are joined and taken apart consistently',
 'Appending an absolute path replaces, appending a relative one joins with exactly one separator; the last component is what follows the last separator, the directory is what precedes it ("." if there is none, the root for an entry of the root), the extension is what follows the last period of the last component, and empty if there is none. Joining a directory and a relative name without separators gives a path with that directory (but for trailing separators) and that last component, and splitting a path with a separator and joining the parts gives the same path back up to repeated separators.',
 ['inputs'],'all strings over separators, periods and other characters, as either operand',
 'No test calls these functions with more than one shape of path.',
 [PN],[('join','PathName::Append'),('split','PathName::DirectoryName, Tail, Extension'),('kind','PathName::GetPathType')],['returned paths'])
p('P16','Colon separated lists and environment paths lose no entry',
 'The entries of a colon separated list are exactly the strings between the colons, in order, empty ones included, so joining them with colons gives the value back; the empty value is the empty list. The list from an environment variable is that of its value (empty if it is not set), and after changing the current directory the reported one is the directory changed to (under its present name when it is moved, of whatever length), while changing to what is not a directory is refused and changes nothing.',
 ['inputs','histories'],'all strings over colons and other characters, set and unset variables, all sequences of directory changes',
 'No test covers these functions.',
 [FU],[('splitting','GetPathListFromColonSeparatedList'),('environment','GetPathFromEnviroment'),('current directory','SetCurrentDirectory, GetCurrentDirectory')],['returned lists and paths'])
p('P17','A line difference turns the first text into the second, minimally',
 'The difference of two texts is empty if and only if they are equal; otherwise applying its commands (each with its line ranges and all the lines it removes and adds, shown completely) to the first text gives exactly the second. The commands are in ascending order, do not overlap or touch, and together remove and add as few lines as possible.',
 ['inputs'],'all pairs of texts: all line sequences over small alphabets, repeated and empty lines, with and without final newline, texts of hundreds of lines',
 'No test calls the difference directly; one or two texts differing in a line reach it.',
 [DI],[('shortest edit','GenerateEditList, FindEditMidPoint'),('line identities','BuildLines'),('printing','PrintEditList')],['output of Diff'])
p('P18','Base64 decodes to exactly the bytes that were encoded',
 'Encoding uses only the 64 characters, "=" as padding of the last group only, and, when line breaks are on, line feeds after each 72 characters but not at the end; with line breaks off there are none. Decoding an encoding gives the same bytes, and both the validity check and the decoder report exactly their number and write no byte more.',
 ['inputs'],'all byte strings: every value in every position of a group, all lengths around group and line boundaries, line breaks on and off',
 'No test covers the encoder or the decoder.',
 [B6],[('encoder','Base64::Encode'),('decoder','Base64::Decode'),('check','Base64::IsBase64')],['encoded text','decoded bytes','returned sizes'])
p('P19','Malformed base64 is never accepted or decoded',
 'The validity check accepts exactly the texts which, white space aside (and all other foreign characters aside when these are to be ignored), are complete groups of four characters up to the end or to the first correctly padded group, and reports the number of bytes they decode to, 0 for all others. The decoder agrees: it decodes what the check accepts to that many bytes, and refuses with an exception every text which is not valid instead of returning bytes.',
 ['inputs'],'all strings over alphabet, padding, white space and foreign characters (all 256 values), with and without ignoring of foreign characters',
 'No test covers the validity check or the error paths of the decoder.',
 [B6],[('check','Base64::IsBase64'),('decoder','Base64::Decode'),('table','Base64::base64bits')],['returned sizes','exceptions'])
p('P20','The text and the data of a measurement never get out of step',
 'At any time the data of a measurement is its text decoded by its current encoding (the text itself without an encoding, with one that is not supported, or when it is no valid base64), and after the data was set the text is its encoding, whatever was set, changed, copied, assigned or compared before. Copies are independent of the original and equal to it, and the values of numeric measurements are what was set.',
 ['histories'],'all sequences of setting text, data and encoding, reading, copying, assigning (also to itself) and comparing over several objects of all types',
 'No test sets data or an encoding; a stale cache needs at least three calls in a certain order.',
 [ME,MH],[('cache','DataMeasurement::data, UpdateContentAsData, DeleteContentAsData'),('copying','DataMeasurement copy constructor and assignment')],['GetContent, GetContentAsData, ==, GetValue'])
p('P21','A visitor is called once, for the most specific type it handles',
 'Visiting a measurement calls exactly one of the handlers a visitor redefines: the one for the nearest type, from the concrete type of the measurement through its ancestors; if it redefines none of these, nothing happens. This holds for every set of redefined handlers and every type of measurement, and the measurement passed is the one visited, unchanged.',
 ['programs'],'all subsets of the eleven handlers and all concrete measurement types, also those made by the type factory',
 'The framework itself only redefines two or three handlers, so most default paths are never taken.',
 [MV,ME],[('default handlers','MeasurementVisitor::Visit'),('double dispatch','AcceptVisitor')],['handlers called'])
p('P22','Two images match if and only if they agree within the tolerances',
 'Two images match if and only if they have the same size, spacing and origin and at most the tolerated number of baseline pixels have no pixel of the test image within the radius (clipped at the border) whose value is within the intensity tolerance (of vectors and complex numbers: their Euclidean distance); the reported number of different pixels and their total and mean difference are those of this definition. An image which is compared with a region of the baseline is compared with the part where it lies. An image which cannot be read does not match, and the difference report of images which do not match is written without ending the run.',
 ['inputs','configurations'],'all pairs of (small) images of numbers, and in memory also of vectors and complex numbers, all sizes, radii up to and beyond the image size, all tolerances, differences at borders and corners, missing files, any number of threads',
 'The four image tests, most of which could not run with this ITK version, compare three fixed photographs.',
 [I+'itktfCompareVisitor.cxx',I+'itktfRegression.h',I+'itktfDifferenceImageFilter.txx',I+'itktfDifferenceImageFilter.h',I+'itktfDifferenceVisitor.cxx'],[('verdict','CompareVisitor::RegressionTestImage'),('counting','Regression::CompareImage, DifferenceImageFilter::ThreadedGenerateData'),('report','DifferenceVisitor::DifferenceTestImage')],['verdict','statistics','report'])
p('P23','Composite measurements and generated names are complete and distinct',
 'Measuring a size, index, region, point, vector, array or matrix makes one measurement for each component, in order, named by the given name and the position, with the value of that component (as precise as a single number would be recorded) and the given tolerance, of whatever dimension; so a change of any one component is exactly one mismatch. File names generated in a run are all different, end in the given extension, lie in the directory given before them if there is one (unless the program was called by an absolute name), and are the same in the next run with the same arguments, in another process or in the same one.',
 ['inputs','histories'],'all dimensions and component values (negative, large), all sequences of composite measurements and generated names, all argument lists',
 'One test measures one region of one image.',
 [I+'itktfRegression.h',I+'itktfRegression.cxx'],[('components','Regression::MeasurementInsight*'),('names','Regression::GenerateFileName')],['recorded document','returned names'])
p('P24','A piped command is measured completely and its exit code decides',
 'The command gets its arguments as they are given, the empty ones too. The text measured for it is exactly what it wrote to its standard output, byte for byte, whatever the amount, the sizes and timing of its writes and whatever it writes to its standard error; it is compared or recorded like any text measurement. The result is the exit code of the command when this is not the expected one, and never success when the command could not be started or was killed.',
 ['schedules','inputs','fault_sequences'],'all outputs (empty to far above the capacity of a pipe, with markup, without final newline), all interleavings of writes to both streams and pauses, all arguments, exit codes and signals',
 'No test runs this program.',
 [T+'tfPipeToXML.cxx'],[('collecting','tfPipeToXMLRegressionTest::Test')],['recorded document','exit status'])
p('P25','The image compare tool applies each option to the images after it',
 'The tool measures each image file argument in order under the names ImageFile0, ImageFile1 and so on, and compares it with the tolerances given by the options before it, the last one of a kind winning and exact comparison being the default; its result is the number of images which did not match. An option without a usable value, or an unknown option, ends with a failure.',
 ['inputs'],'all command lines of options, values and image files',
 'No test runs this program.',
 [I+'itktfImageCompare.cxx'],[('arguments','itktfImageCompareRegressionTest::Test'),('tolerances','Regression::SetImageInsightTolerance')],['recorded document','exit status'])
p('P26','Every measurement tells the test whether it matched',
 'The call which makes a measurement answers zero when it is recorded or when it matches the baseline, and something else when it differs or is unmatched; one which makes several measurements at once answers zero only if all of them match. So a test which asks sees the same verdicts that are counted and reported, at every moment of the run, whatever happens in it afterwards.',
 ['inputs','histories'],'all sequences of measurements of all types, with all baselines, tolerances and ends of the test',
 'No test looks at the answers.',
 [T+'tfRegressionTest.cpp',T+'tfRegressionTest.h',I+'itktfRegression.h',I+'itktfRegression.cxx'],[('answer','RegressionTest::CompareMeasurement'),('several','Regression::MeasurementInsightRegion')],['what the calls return'])
p('P27','A filter watcher writes the same text for the same events, and nothing when it is gone',
 'The text which a watcher of a filter writes is determined by the class of the filter, the comment and the order of the start, iteration, abort and end events while it watches, and by nothing else: not the progress events, the number of threads, other watchers or the number of events before. A watcher can redefine the handlers. The filter stays as long as it is held or watched; when a watcher is gone nothing more is written by it and the filter can be used on.',
 ['histories','programs'],'all histories of filters, watchers, events and runs',
 'No test uses a watcher; its end while the filter lives on needs a history.',
 [I+'itktfFilterWatcher.h'],[('texts','FilterWatcher::StartFilter, ShowIteration, ShowAbort, EndFilter'),('observation','FilterWatcher::FilterWatcher, ~FilterWatcher')],['text written to the stream','life of the filter'])
p('P28','A printed measurement reads back as itself',
 'Printing a measurement with escape sequences, as is the default, gives exactly one XML element whose name, type, encoding, compression and content read back as those of the measurement, for all texts of printable characters, tabs, line feeds and carriage returns (also if they look like markup or like escape sequences) and whatever was set, copied or assigned before. Printed without escape sequences the content is there as it is. Printing changes nothing and can be repeated.',
 ['inputs','histories'],'all texts in all attributes and contents, all types, all histories of settings, copies and assignments',
 'The tests print measurements of a few harmless texts.',
 [ME,MH],[('printing','Measurement::Print, PrintContent, MeasurementFile::PrintStartTag, DataMeasurement::PrintStartTag'),('escapes','Measurement::ApplyEscapeSequences, ApplyAttributeEscapeSequences')],['printed text'])
p('P29','Runs in one process do not affect each other',
 'The mode, the result, the output and what the test is told in a run depend only on the settings of its test object, its arguments, its test and the files as they are: not on the runs made before in the same process with this or other objects, however these ended (matched, with mismatches, aborted in the preparation or in the test), nor on runs of other objects which its test makes in between. Settings of an object (made by the program, or by the options and the test of an earlier run) stay until they are changed; nothing else stays.',
 ['histories','inputs'],'all sequences and nestings of runs of all kinds with one or several objects',
 'The tests make one run of each object; no test makes a run after one which was aborted.',
 [RT,T+'tfRegressionTest.h'],[('state between runs','RegressionTest::Main, BeginMeasurement, EndMeasurement'),('settings','RegressionTest::ParseAndRemoveArguments')],['result of each Main','output of each run','answers to the test'])
p('P30','A directory is listed completely',
 'The listing of a directory has the name of every entry in it exactly once, whatever its kind (links which lead nowhere and hidden files included), together with "." and "..", and nothing else, in any order; it is the state of the directory at the time of the call. What is not a directory, does not exist or may not be read has the empty listing. Listing changes nothing.',
 ['inputs','histories'],'all directories (empty, large, with entries of all kinds and names), named absolutely, relatively or through links, and all histories of changes between the listings',
 'No test lists a directory.',
 [PN,F+'PathName.h'],[('listing','PathName::SearchDirectory')],['returned list'])
p('P31','The report of two images which do not match shows what is different',
 'When two images which can be read do not match, the report has, in pairs for the baseline and the test, their sizes if these are different, and nothing more then; else their spacings, origins, kinds of pixels, types of components and numbers of components, each pair only if they are different; the number of different pixels; and three pictures, named like the test image with ".diff.png", ".base.png" and ".test.png", of the difference (baseline minus test where a pixel is different, 0 elsewhere), of the baseline and of the test image: each has the middle slice (size div 2) with its values spread in proportion over the gray levels from 0 to 255. What is reported of one pair does not depend on the others, except that test images of the same name share their pictures.',
 ['inputs'],'all pairs of images of up to three dimensions which do not match, and all tolerances',
 'One test has images which differ, and nobody looks at its pictures.',
 [I+'itktfDifferenceVisitor.cxx',I+'itktfRegressionSupport.h.in'],[('report','DifferenceVisitor::DifferenceTestImage'),('picture','ImageThing')],['standard output','*.diff.png, *.base.png, *.test.png'])
p('P32','What a test decides by visitors of its own is what counts',
 'A test may make the visitors which compare (CreateCompareVisitor) and which report differences (CreateDifferenceVisitor), and may compare measurement objects of its own, of any type (CompareMeasurement). In compare mode, each measurement which is paired with a baseline of its name and type makes one comparing visitor, which is told the baseline, and the relative tolerance of then if it is compared tolerantly and otherwise that there is none, before the measurement is shown to it once; its result alone decides. If it is no, one visitor for differences is made, told the baseline and given the output of the run, and is then shown the same measurement once; the report of the measurement is what it writes. The call is not zero and adds one to the result of the run exactly if the answer is no or the measurement is not paired. No visitor is made for a measurement which is not paired, nor when recording, and none is left when the call is over, unless it throws. A run in which a visitor throws has failed, and nothing more is measured.',
 ['inputs','histories'],'all tests with visitors of their own, all verdicts and reports of these, all types of measurements and all baselines',
 'No test has visitors of its own except the one of images.',
 [RT,T+'tfRegressionTest.h'],[('compare','RegressionTest::CompareMeasurement'),('report','RegressionTest::DifferenceMeasurement'),('make','CreateCompareVisitor, CreateDifferenceVisitor')],['calls of the visitors','-O file','standard output','return value'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
