import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
p('C01','An image always stores exactly as many pixels as its shape declares',
 'Every image a caller can construct, resize, assign or modify in place holds a number of stored pixels equal to the product of its extents. Constructing an image from data whose length (or row lengths) disagrees with the requested shape fails with an exception instead of producing an inconsistent image.',
 ['inputs','histories'],'all element types, all shapes (any number of dimensions), all data lengths, all sequences of constructors and in-place operators',
 'Tests build a few consistent images; the guarantee is about every shape and every inconsistent data length, including ragged nested input.',
 ['image.h'],[('Image constructors (sizes only, data+sizes, nested rows, copies)','image.h class Image'),('in-place arithmetic and fill','image.h operator+= .. setAllValue')])
p('C02','Checked pixel access never touches anything outside the image',
 'Reading or writing a pixel through the checked accessors with the wrong number of coordinates, or with any coordinate or linear index outside the extents, throws; the tuple-based setter instead reports failure and leaves the image unchanged. A valid coordinate is never rejected.',
 ['inputs'],'all images (including the default-constructed one), all coordinate lists of any length, every linear index',
 'Tests probe a handful of coordinates, mostly valid ones; off-by-one or wrong-axis bounds need the one coordinate that separates them.',
 ['image.h'],[('at(...) family','image.h'),('set(location, value) / set(index)','image.h'),('boundary check helpers','image.h')])
p('C03','All ways of addressing a pixel name the same storage location',
 'For every shape, separate coordinates, a coordinate list, a coordinate tuple and the linear index all address the same pixel: the first coordinate varies fastest and the linear position is the sum of each coordinate times the product of the extents before it.',
 ['inputs'],'all shapes and all in-range coordinates, for one to four or more dimensions',
 'Square test images hide swapped extents and strides; only particular non-square, multi-dimensional shapes expose them.',
 ['image.h'],[('index computation for each accessor form','image.h'),('strides','image.h getStride')])
p('C04','Combining images pixel by pixel rejects operands of different size',
 'Every operation that combines two or more images (or channel planes) position by position throws when any two operands differ in any extent or in dimensionality, before any pixel is combined. This covers the arithmetic operators, the named arithmetic, difference and distance operations, generic pixelwise transforms and the assembly of multi-channel or complex images from planes.',
 ['inputs'],'all operand counts and all pairs of shapes, including equal pixel counts with different extents',
 'Tests combine equal-sized images; a missing or too weak check only shows for particular mismatching shapes (for instance equal widths, or transposed extents).',
 ['image.h','image_operations.h'],[('size checks','image_operations.h check_size_same; image.h operators'),('generic pixelwise application','image_operations.h pixelwise_transform'),('distances','image_operations.h euclidean_distance, manhattan_distance')])
p('C05','Two-dimensional operations reject images of other dimensionality',
 'Every operation defined only for two-dimensional images throws when it is given an image with another number of dimensions, rather than processing it as if it were two-dimensional.',
 ['inputs'],'all images of 0, 1, 3 or more dimensions passed to any 2-D-only operation and overload',
 'No test passes a non-2-D image to each of the many overloads; removing one guard changes nothing for 2-D inputs.',
 ['image_operations.h','image.h'],[('dimensionality guards','image_operations.h: throws "Unsupported dimension!"')])
p('C06','Parallel execution is free of data races',
 'No two iterations of a parallel loop, parallel algorithm or asynchronous task inside the library access the same memory location with at least one write unless the accesses are ordered by a lock, an atomic or a reduction. Results therefore do not depend on thread scheduling.',
 ['schedules'],'all interleavings and thread counts, for every parallel region of the library',
 'Tests see one schedule and small images; a race shows only under particular interleavings.',
 ['image_operations.h','basic_functions.h','image.h'],[('OpenMP regions','image_operations.h #pragma omp parallel for'),('execution-policy algorithms','image_operations.h, basic_functions.h std::for_each/std::transform with a policy'),('std::async plane processing','image_operations.h apply_each')])
p('C07','Files and buffers are released exactly once on every path',
 'Every file handle and every raw buffer that image input/output acquires is released on every path out of the function, including all error paths, is never released twice and is never used after release.',
 ['fault_sequences','inputs'],'every combination of open/allocation/read failures and every malformed header',
 'Tests only read and write good files; leaks and double closes occur on error paths.',
 ['image_io.cpp','image_io.h'],[('file open/close','image_io.cpp'),('buffer allocation','image_io.cpp')])
p('C08','Input/output failures are reported, never passed off as success',
 'When a file cannot be opened, its header or pixel data cannot be read completely, memory cannot be obtained or output cannot be written completely, the reading or writing function takes its error path (an error code, an exception or an empty result) instead of continuing with unread or missing data or reporting success.',
 ['fault_sequences','inputs'],'every failing open, allocation, short read or short write',
 'Tests use files that exist and are complete, so ignoring a failure result changes nothing they observe.',
 ['image_io.cpp','image_io.h'],[('result checks of fopen/fread/fwrite/malloc and of stream state','image_io.cpp, image_io.h')])
p('C09','Each file format is written and read with one layout',
 'For every image format the library both writes and reads (BMP, the double-image format, the HSV format and plain PNM: P1 for 0/1 images, P2 for grey images, P3 for all), the writer and the reader agree on field order and width, byte order, row order, row padding, separators and channel order, so that what is written is what is read back: the same width, the same height and the same value in every channel of every pixel.',
 ['inputs'],'all widths (every padding case), heights and pixel values',
 'The tests do not compare a written file with what is read back for every width class; padding or channel-order slips survive.',
 ['image_io.cpp','image_io.h'],[('bitmap encode/decode','image_io.cpp'),('double image / HSV / PNM / raw formats','image_io.cpp, image_io.h')])
p('C10','Geometric rearrangements put every pixel exactly where specified',
 'Flips, transposition, rotation by whole quarter turns, cropping, concatenation, pasting, splitting into equal blocks (with or without overlap) and padding (constant, mirrored about the edge pixel, edge replication) produce an image of the specified extents in which every output pixel is the specified input pixel or the stated fill value. Cropping a region that reaches outside the image throws.',
 ['inputs'],'all image sizes (including non-square and one-pixel-wide ones) and all legal offsets',
 'Off-by-one or swapped-axis errors show only for particular, mostly non-square, sizes and the test programs print rather than compare.',
 ['image_operations.h'],[('flip/transpose/rotate/subimage/concat/paste2D/split','image_operations.h')])
p('C11','Channels keep their identity',
 'Extracting a colour plane returns that channel and no other, assembling planes puts each plane in its own channel, and applying an operation to every channel, or adding and subtracting pixels, returns each result in the channel it came from; requesting a channel that does not exist throws.',
 ['inputs'],'all images of every multi-channel pixel type and all channel indices',
 'Gray-like or symmetric test data hide swapped channels.',
 ['image_operations.h'],[('plane extraction and construction','image_operations.h getPlane/getRplane.../constructRGB...'),('apply_each','image_operations.h')])
p('C12','Commands never use an argument that was not supplied',
 'Every command of the command-line program checks the number of supplied arguments before using any of them, and reports a usage error when too few were given.',
 ['inputs'],'all commands and every shorter argument list, in scripts, pipelines and interactive use',
 'No test runs the program with every truncated argument list of every command.',
 ['main.h','main.cpp'],[('command handlers','main.h namespace handlers'),('dispatch','main.cpp')])
p('C13','A pipeline feeds each command its predecessor\'s result where it expects it',
 'For every registered command the declared positions of its input and output arguments are the positions at which the command itself reads its input image and writes its result, so that chaining any commands in a pipeline passes each intermediate result to the next command unchanged.',
 ['programs'],'all registered commands and all pipelines built from them',
 'The number of command combinations is unbounded and the tests do not execute pipelines.',
 ['main.h','main.cpp'],[('command registration with I/O schema','main.cpp, main.h IOSchema'),('handlers','main.h')])
p('C14','The workspace keeps its variables consistent under concurrent use',
 'Every read or write of the workspace\'s variable table happens while the workspace\'s mutex is held, and no call chain acquires that mutex twice. Storing, retrieving, removing, renaming and clearing affect exactly the variables they name, under one normalisation of names: storing replaces, renaming moves the value, replaces an existing target and keeps a variable renamed to itself, and each operation reports truthfully whether the variable existed. (The object a retrieve call points to is the caller\'s to protect.)',
 ['schedules','histories'],'all interleavings and sequences of workspace operations',
 'Races and self-deadlocks depend on timing and on rarely combined commands, and wrong table updates on particular sequences of names.',
 ['main.h'],[('Workspace member functions','main.h struct Workspace'),('save and load of the workspace','main.h save_workspace/load_workspace')])
p('C15','Plugin code is never called or destroyed after its library was unloaded',
 'A loaded plugin library stays mapped as long as any command handler, object or function pointer obtained from it can still be called or destroyed, on every path including failed loading and program exit; every library that was opened is closed exactly once.',
 ['histories','fault_sequences'],'all load/registration failures and all exit paths',
 'Use after unload depends on destruction order and on failing plugins, which tests do not exercise.',
 ['dynamic_loader.h','main.cpp','main.h'],[('DynamicLibrary ownership','dynamic_loader.h'),('plugin list and registry lifetime','main.cpp')])
p('C16','Operations never modify their inputs and keep no hidden state',
 'Library functions never change an image or container they take as a read-only input, and calls with the same arguments give the same result however many calls came before: no function lets values kept from an earlier call influence its result, and only operations that are handed or advertise a random generator draw on entropy or the clock. Copies of images and cubes own their data, so changing one never changes another.',
 ['histories','inputs'],'all call sequences',
 'A hidden static or an aliasing write shows only for particular call histories.',
 ['image_operations.h','image.h','basic_functions.h'],[('const inputs','all library headers'),('absence of mutable static state','all library headers')])
p('C17','No operation reads or writes outside an image',
 'Pixel and buffer accesses that bypass the range check stay inside the object they index. Whatever the extents of the (non-empty) images an operation is given and whatever its integer arguments, every unchecked pixel read and write (at_without_boundary_check, linear position, pointer to a row, raw pixel data) lies within the extents of that image or buffer, unless the operation has already rejected the arguments with an exception.',
 ['inputs'],'all image extents and integer arguments, all pixels of all operations',
 'Tests use a few sizes, and an access one element past the end usually goes unnoticed.',
 ['image_operations.h','image_io.h','image_io.cpp','histogram.h'],[('unchecked accessors','image.h at_without_boundary_check/get'),('loops over pixels','image_operations.h'),('file formats','image_io.h, image_io.cpp')])
p('C18','Every option a function accepts takes effect in every overload',
 'Every named parameter of a library function influences what the function does. An overload that delegates to a more general overload of the same operation (adding an execution policy, processing planes separately, mapping over a list of images) passes each of its parameters on in the matching position: none is dropped, replaced by a constant or swapped with another.',
 ['inputs','configurations'],'all overloads and all non-default option values',
 'Tests call most overloads with default options, where a dropped or swapped option is invisible.',
 ['image_operations.h'],[('delegating overloads','image_operations.h')])
p('C19','References, iterators and moved values are never used after their object',
 'No function returns, stores or uses a reference, pointer, iterator or view to an object that has already been destroyed (a local, a by-value parameter, a temporary) or whose storage has since been reallocated. No function reads an object after moving its contents away, unless it gave it a new value first.',
 ['programs','inputs'],'all library and command-line functions and all paths through them',
 'Dangling results and moved-from values often appear to work in a test run.',
 ['histogram.h','image.h','cube.h','linear_algebra.h','image_operations.h','main.h'],[('iterator and reference accessors','histogram.h begin/end; image.h accessors'),('lazy views and captured references','image_operations.h, main.h')])
p('C20','Every declared mode is honoured',
 'Wherever behaviour is selected by an enumerated mode (boundary condition, interpolation, estimator, ...), every value of the enumeration selects its own documented behaviour, and a mode requested by the caller reaches every function that selects by it.',
 ['configurations'],'every enumerator at every selection point',
 'Tests use one or two modes.',
 ['image_operations.h','main.h'],[('switches over enumerations','image_operations.h')])
p('C21','Named elementwise operations apply exactly the operation they are named for',
 'Elementwise operations (addition, subtraction, multiplication, division, modulus, negation, absolute value, difference, trigonometric and power functions) apply to every pixel and every channel exactly the named mathematical operation on the corresponding operand pixels, in operand order, and nothing else (subtraction of 8-bit RGB images saturates at 0).',
 ['inputs'],'all pixel values and image sizes, every overload',
 'Commutative or symmetric test values hide operand swaps, wrong functions in rarely used overloads and skipped channels.',
 ['image_operations.h','image.h','base_types.h'],[('elementwise functions','image_operations.h'),('operators','image.h, base_types.h')])
p('C22','An execution policy never changes the result',
 'For every operation offered both with and without an execution policy, both forms compute the same output: same shape, same pixel mapping, same formula, same checks.',
 ['configurations','schedules'],'all operations with a policy overload, all policies, all inputs',
 'Tests rarely run both overloads on the same input, and never all of them.',
 ['image_operations.h'],[('pairs of overloads','image_operations.h')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
