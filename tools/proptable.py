NA = {}
IMG = 'modules/process/src/c_src/imageprocess.c'
HMC = 'modules/core/src/c_src/hypermat.c'
SMC = 'modules/core/src/c_src/simplemat.c'
S2D = 'modules/core/src/c_src/struct_2D.c'
PROPS = [
 dict(id='C01', title='Interleave conversion is the exact permutation of the cube',
  statement='Converting an image between BSQ, BIL and BIP (to a new image or in place) puts the sample of line i, sample j, band k at the position the target layout prescribes, bit for bit, for every image size and element type. The result has the same size, data type and wavelengths, carries the name of the target layout, and the source of an out-of-place conversion is left untouched. Converting to the layout an image already has gives an identical copy (or leaves it as it is, in place).',
  quant='all image sizes (byte size below 2^31), all 9 data types, all contents, all ordered pairs of layouts, images with or without a wavelength table',
  why='the tests convert one file and never look at the samples; a wrong stride shows only when lines, samples and bands differ',
  files=[IMG, HMC], mech='six bil/bip/bsq conversion functions and the three in-place wrappers compute byte indices of source and destination in nested loops'),
 dict(id='C03', title='A region of interest is exactly the selected sub-cube',
  statement='Extracting lines [row0,row1), samples [col0,col1), bands [band0,band1) of an image gives an image of exactly that size, same layout and data type, whose sample (i,j,k) is bit for bit sample (row0+i, col0+j, band0+k) of the source. Its wavelengths are those of the selected bands and the source is untouched.',
  quant='all image sizes, all valid regions, all layouts, all data types and contents',
  why='tests crop one region of one file and do not compare contents', files=[IMG], mech='one copy loop nest per layout with rebased indices'),
 dict(id='C04', title='Moving bands between cubes and planes is lossless',
  statement='Extracting a band of a BSQ image as a plane gives exactly that band; storing a plane as a band replaces exactly that band and no other byte. Reshaping a cube to a plane of equal element count keeps all samples in storage order; splicing a part into a cube at an element position replaces exactly that stretch of elements.',
  quant='all sizes, bands, data types, positions and contents', why='tests use one image and one band; an off-by-one band or a byte/element mix-up only shows for other bands or wider types',
  files=[IMG], mech='memcpy at an offset computed from samples*lines*(band-1)*elemsize'),
 dict(id='C05', title='Creating and copying images gives private, exact, zeroed storage',
  statement='Creating an image gives an object with exactly the requested dimensions, data type, channels or layout, whose data and wavelength areas are 64-byte aligned, do not overlap each other or the header, are large enough, and hold zeros or exactly the data supplied. Copying an image gives an equal image with storage of its own (a copy into an existing image keeps the storage of the destination), and leaves the source untouched. A structuring element is created with every cell set.',
  quant='all dimensions (byte size below 2^31), all data types, channels, layouts and contents', why='tests create a handful of sizes; layout overlap depends on size and on the address the allocator returns',
  files=[HMC, SMC, S2D], mech='one allocation holds header, data and wavelengths at aligned offsets'),
 dict(id='C06', title='Deleting an image releases everything it owns exactly once',
  statement='Deleting an image or structuring element that the library created or copied releases every byte that was allocated for it, exactly once, and nothing else; a user buffer adopted by a plane is released with it, and a user buffer that was only copied from is not. Deleting a null image does nothing.',
  quant='all dimensions, all allocator addresses, all ways of creating an object', over=['inputs', 'histories'], why='whether the original code freed the right pointer depended on the allocator address',
  files=[HMC, SMC, S2D], mech='delete functions decide from field addresses whether the data belongs to the header allocation'),
 dict(id='C07', title='Transposing and flipping move every pixel to its mirrored place',
  statement='Transposing a single-channel plane or a matrix puts element (i,j) at (j,i), bit for bit, for every size and element type; transposing a BSQ cube does so in every band. Flipping a byte plane vertically, horizontally or both (chosen by the flip code: 0, any other value, -1) puts pixel (i,j) at the mirrored position, all channels of it. No other byte is written and the source is untouched.',
  quant='all sizes, channels, element types, flip codes and contents; source and destination distinct', why='there is no test of these functions; index mix-ups only show on non-square images or with several channels',
  files=['modules/process/src/c_src/spectralprocess.c', 'modules/process/src/c_src/GeometricTransformation.c', IMG, 'modules/process/src/c_src/matrixprocess.c'], mech='per-pixel copies with row/column indices exchanged or reflected'),
 dict(id='C08', title='Conversions between element types keep or correctly round and saturate every sample',
  statement='Widening conversions of an image (unsigned char to short, int, float, unsigned short; unsigned short to float) keep every sample exactly. Conversions from float round to the nearest integer (halves to even) and saturate at the limits of the target type (unsigned char 0..255, char -127..127, short, unsigned short); int and unsigned int are exact roundings, negative values becoming 0 for unsigned int. The result has the size, layout and wavelengths of the source and the data type of the target, and the source is untouched. The float to unsigned char conversion of a plane rounds and saturates the samples of all channels in the same way.',
  quant='all sizes, layouts and contents (finite floats of magnitude below 2^31), images with or without wavelengths',
  why='no test compares converted values; wraparound instead of saturation shows only for values outside the range of the target', files=['modules/process/src/c_src/datatypechange.c', 'modules/core/include/c_include/type.h'],
  mech='per-sample saturating casts and a fresh image per conversion'),
 dict(id='C15', title='Matrix arithmetic computes exactly the algebraic result',
  statement='For every size, MulMatrix_* adds the product x*y (m by k times k by n) to the destination, modulo the width of integer types; correlation_matrix_* does the same and divides the result by the inner length (integer division truncates). The other matrix helpers set the identity, exchange, scale or shear rows, take the euclidean norm of a vector, take the natural logarithm of every element of a float plane, and add two planes of the same size element by element; they write nothing but their destination.',
  quant='all sizes and contents; operands and destination distinct; floats as real numbers', why='the tests multiply no matrices but one invert example; a transposed index or wrong stride shows only for non-square shapes',
  files=['modules/process/src/c_src/imageprocess.c', 'modules/process/src/c_src/matrixprocess.c'], mech='triple loops with index arithmetic per element type'),
 dict(id='C09', title='Thresholding classifies every pixel by the documented rule',
  statement='On a single-channel byte plane, binary thresholding sets pixels above the threshold to the given value and all others to 0, inverted binary does the opposite, truncation replaces pixels above the threshold by it, to-zero keeps only pixels above the threshold and inverted to-zero only the others. The dispatcher applies the rule its type argument names, and nothing for a type that has no rule. Otsu splitting uses the level that the Otsu search returns: pixels below it become 0, all others 255; that level lies in 0..255 and is the first one for which the variance between the pixels up to it and the pixels above it is greatest (colour images: of the truncated weighted sum 0.114 c0 + 0.587 c1 + 0.299 c2). The source is untouched and no other byte is written.',
  quant='all image sizes, all contents, all thresholds and values 0..255, all type codes', why='no test compares a thresholded plane; a wrong comparison shows only for pixels equal to the threshold',
  files=['modules/process/src/c_src/threshold.c'], mech='one loop per rule comparing each byte to the threshold; the Otsu search as a fold over the levels whose sums over the histogram are compared with the definition', note='variances in exact real arithmetic'),
 dict(id='C19', title='Colour conversions compute the documented value for every pixel',
  statement='Converting a byte plane to colour copies the grey value to all three channels (binary planes: multiplied by 255, modulo 256). Converting colour to grey gives the largest channel (method 1), the truncated weighted sum 0.299 c0 + 0.587 c1 + 0.114 c2 (method 2), or the rounded mean of the three channels (otherwise). Exchanging BGR and RGB swaps the first and third channel of every pixel in place. Sources are untouched and nothing else is written.',
  quant='all image sizes, all contents, all methods', why='there is no test of colour conversion; a wrong weight or channel shows only in pixel values',
  files=['modules/process/src/c_src/colortransform.c'], mech='one loop over pixels per conversion'),
 dict(id='C20', title='Radiometric calibration multiplies every sample by its own coefficient',
  statement='Relative calibration of an unsigned short BIP cube gives a float cube of the same size and layout whose sample (i,j,k) is the source sample times coefficient k*samples+j; absolute calibration of a float BIP cube multiplies sample (i,j,k) by coefficient k. Source image and coefficients are untouched.',
  quant='all image sizes, contents and coefficients; floats as real numbers', why='there is no test of calibration; a wrong coefficient index shows only when samples and bands differ',
  files=['modules/process/src/c_src/RadiometricCalibration.c'], mech='triple loop with a coefficient index per sample'),
 dict(id='C13', title='Statistics are the exact arithmetic of the samples',
  statement='The mean of a vector of any element type is the sum of its elements divided by their number. The mean and variance of a single-channel plane (unsigned char, short, unsigned short, int, float) are the arithmetic mean and the mean squared deviation from it. The grey-level statistics of a byte plane count the pixels of every level 0..255; the entropy is minus the sum of p*log2(p) over the levels that occur; the contrast is the sum of squared differences of every pixel to its up to four neighbours divided by the number of such differences (4(r-2)(c-2)+6(r-2)+6(c-2)+8). Colour planes are first turned to grey (rounded mean of the channels). The mean, variance and standard deviation of a spectrum are those of its values. The edge signal energy of a byte plane is the mean over all pixels of the squared edge signal (8 times the pixel minus twice each of its four neighbours, over 6; neighbours outside mirrored without the edge). The mean image of a float BIP cube holds the mean of the spectrum of every pixel. Inputs are untouched and all temporary storage is released.',
  quant='all sizes and contents; floats as real numbers; contrast for planes of at least 2x2 pixels',
  why='tests compute the mean of one short vector; sign extension, a missing neighbour or a leak shows only for other types, borders or colour images',
  files=['modules/algorithm/src/EdgeSignalEnergy.c', 'modules/process/src/c_src/mathprocess.c', SMC, 'modules/process/src/c_src/spectralprocess.c'], mech='accumulation loops per element type'),
 dict(id='C14', title='Histogram equalisation and normalisation scale every pixel as documented',
  statement='Histogram equalisation of a single-channel byte plane replaces every pixel of level g by 255 times the number of pixels of level at most g, divided by the number of pixels, truncated. Normalising a plane (unsigned char or float) with a sum (L1), euclidean (L2) or maximum norm multiplies every element by alpha divided by the norm of the plane (absolute values for the sum and maximum norm); normalising to a range maps the smallest element to min(alpha,beta), the largest to max(alpha,beta) and those between linearly. Byte results are rounded to the nearest integer (halves to even) and saturated to 0..255, float results are stored as they are. The linear stretch of a float BSQ cube maps every sample v of a band with values from min to max to (v-min)*255/(max-min), truncated and at most 255; results below 1 become 0 for a sample that is 0 and 1 for any other, also when all samples of the band are equal. Sources are untouched and nothing else is written.',
  quant='all image sizes, contents and parameters for which the norm or range is not zero; floats as real numbers',
  why='there is no test of equalisation or normalisation; accumulation and scaling errors show only in pixel values', files=['modules/algorithm/src/HisEqualization.c', 'modules/algorithm/src/normalize.c'],
  mech='histogram accumulation, norm accumulation and per-pixel rescaling'),
 dict(id='C16', title='Images on disk: what is read is what the file holds, what is saved is what the image holds',
  statement='Reading a raw image of given size gives an image of exactly that size, data type and layout whose storage is, byte for byte, the beginning of the file (all channels of a plane, wavelengths zero); reading with a header takes size, data type and layout (and given wavelengths) from the header text, in any order of the entries, however they are spaced and whatever other entries there are (such as data ignore value). A missing file gives NULL for a cube. HyMat::open and the C++ hmread with given size do the same (a former image of the object is released first). read_spectrum_file returns as many numbers of a text file as were asked for, zero where the file holds fewer. Saving a cube writes exactly its bytes to the file and, next to it, a header file (the path with .hdr) that states its samples, lines, bands, data type, layout and every wavelength (or that they are unknown). Source image and files read are untouched, every file is closed, and nothing but the result is left allocated.',
  quant='all image sizes (byte size below 2^31), data types, contents, wavelengths and layouts; files at least as long as the image; header texts laid out as written by the library (and in another order of entries, and with no or more blanks around the equals sign), with any size and data type; text files of any number of numbers; wavelength lists in a header: one list of three, on one line and on several',
  why='the tests write one header and read no file; leaks, a missing channel or a swapped header entry go unnoticed',
  files=[HMC, SMC, 'modules/core/include/cxx_include/hypermat.hpp', 'modules/process/src/c_src/spectralprocess.c'], mech='fread/fwrite of samples*lines*bands elements; header written by fprintf and read by fgets/sscanf'),
 dict(id='C17', title='Bitmap files hold exactly the picture',
  statement='Writing a colour or gray byte image as a bitmap gives a file of exactly the size of the headers and padded rows, whose header fields state type, sizes, offset, dimensions, 24 bits per pixel and no colour table, and whose rows hold the pixels bottom row first, blue before red, padded with zeros; a gray image is written with equal colours. The image written is not changed. Reading a 24-bit bitmap gives an image of its dimensions with three channels in the order red, green, blue, the top row first, so that writing and reading an image returns it. Files are closed and nothing but the result is left allocated.',
  quant='all image dimensions (odd and even, with every row padding) and contents', why='there is no test; the middle row, the padding and the caller\'s image only show for odd heights or widths not divisible by four',
  files=[SMC], mech='header structures and rows are read and written in one pass with reversed rows and channels'),
 dict(id='C18', title='Factorials and transform sizes are exact',
  statement='The factorial function returns n! for n from 0 to 20 and -1 for every negative n. The optimal transform size of n is the smallest number that is at least n among the products of powers of 2, 3 and 5 (with the power of 3 at most 14) up to 2125764000, and -1 for negative n and for n of 2125764000 or more.',
  quant='all integers (transform sizes, negative factorials), n of 0..20 (factorials)', why='both are table look-ups: one wrong entry or a wrong step of the search shows for few arguments only',
  files=['modules/process/src/c_src/mathprocess.c', 'modules/algorithm/src/dft.c'], mech='constant tables and a bisection'),
 dict(id='C24', title='The discrete Fourier transform computes its defining sums',
  statement='The forward transform of a single-channel unsigned char or unsigned short plane gives float planes whose element (u,v) is the sum over all pixels (x,y) of value*cos(2*PI*(u*x/rows+v*y/cols)) and of -value*sin(of the same angle). The inverse transform gives the sum of re*cos - im*sin over all elements divided by rows*cols, rounded to the nearest integer and saturated to the range of the element type. The magnitude image holds sqrt(re^2+im^2) of every element. The frequency spectrum image holds the rounded and saturated magnitude of the transform of the plane multiplied by (-1)^(x+y), divided by sqrt(rows*cols). The dispatchers choose by the data type of the plane. Sources are untouched.',
  quant='all image sizes and contents; floats as real numbers, PI as defined by the library', why='there is no test of the transform; index mix-ups show only on non-square planes',
  files=['modules/algorithm/src/dft.c'], mech='four nested loops per transform'),
 dict(id='C25', title='Spectral distances and matching follow their formulas',
  statement='The spectral angle of two vectors is acos(sum |x*y| / sqrt(sum x^2 * sum y^2)); the euclidean distance is the root of the sum of squared differences. Matching a float BIP cube against a spectrum gives a new byte plane of lines by samples that is 1 exactly where the spectral angle between the pixel and the spectrum is at least the threshold, else 0. Inputs are untouched and nothing leaks.',
  quant='all vector lengths, image sizes, contents and thresholds; floats as real numbers', why='there is no test of the spectral functions; integer truncation of products shows only for fractional data',
  files=['modules/process/src/c_src/spectralprocess.c'], mech='accumulation loops over bands and one loop over pixels'),
 dict(id='C10', title='Borders extrapolate an image by the documented rule',
  statement='Mapping a coordinate p of a row of n pixels into 0..n-1 gives, for replicate, the nearest pixel; for reflect, the mirror image including the edge pixel; for reflect 101, the mirror image excluding the edge pixel (0 if n is 1); for wrap, p modulo n; coordinates inside the row are kept. Copying a byte plane with a border gives a plane of rows+top+bottom by cols+left+right pixels whose interior is the source and whose border pixels are the source pixels at the mapped row and column, or the given value for a constant border, for all channels. The source is untouched.',
  quant='all coordinates of magnitude at most 2^30, all lengths 1..2^29, all border widths, image sizes, channels and contents', why='no test extends an image; wrong mirroring shows only far outside or at exactly one position',
  files=['modules/process/src/c_src/filter.c'], mech='a coordinate mapping function (with a loop for the reflections) used for rows and columns'),
 dict(id='C11', title='Neighbourhood filters compute their weighted sums over the extended image',
  statement='hypercv_filter2D adds to every pixel of a float destination the sum of kernel weight times neighbour, the neighbours outside the image being given by the border rule (1 or 3 channels). The separable blur filters rows, then columns, with the two given kernels, limiting to 0..255 after each pass and rounding the result. The gaussian kernel of n weights is exp(-(i-(n-1)/2)^2/(2 sigma^2)) normalised to sum 1, with sigma=((n-1)*0.5-1)*0.3+0.8 when none is given, except for n=1,3,5,7 where the fixed binomial weights are used; the gaussian blur uses such kernels (second sigma defaulting to the first). The laplacian is the saturated 4-neighbour difference (the doubled diagonal one for size 2); sobel marks with 255 exactly the pixels whose larger absolute gradient exceeds the threshold; the mean blur gives the mean of the part of the window that lies in the image. Sources are untouched and temporary storage is released.',
  quant='all image sizes, kernel sizes, contents and parameters, borders replicate, reflect, wrap and reflect 101; floats as real numbers', why='no test compares filtered pixels; errors at borders, with several channels or non-square images go unseen',
  files=['modules/process/src/c_src/filter.c', 'modules/process/src/c_src/gradient.c'], mech='nested loops over pixels and kernel with mapped coordinates', note='exp is an uninterpreted function; median blur is not covered'),
 dict(id='C02', title='The C++ image class keeps size, layout, samples and wavelengths',
  statement='Constructing or creating a HyMat gives an image of exactly the requested size, data type and layout (members, interleave letters, element and data size) whose data and wavelengths are those supplied or private zeroed storage; create() releases the former storage; a default-constructed image is empty. copy(), the six free conversion functions and convertTo() keep every sample (i,j,k) and every wavelength, the first two with storage of their own and an untouched source. range() gives exactly the samples and wavelengths of the half-open box of rows, columns and bands. CopyData and CopyWaveLength replace exactly the first n bytes or values (all for 0). release() frees both areas exactly once.',
  quant='all sizes (byte size below 2^31), data types, layouts, boxes inside the image and contents', why='no test covers the class; a wrong stride, layout code or wavelength offset shows only for non-cubic images or particular layouts',
  files=['modules/core/include/cxx_include/hypermat.hpp', 'modules/core/src/cxx_src/hypermat.cpp'], mech='inline members and conversion loops with explicit index arithmetic', note='compiled with -fno-exceptions; entry points that only forward to the members are in props/cxx/hymat.cpp; save(), open() and the header functions are not covered here'),
 dict(id='C21', title='The growing vector never loses an element',
  statement='vector_push_back keeps all elements in order, appends the new one, increases the size by one and, when the vector is full, doubles the capacity (1 for an empty vector), with storage for the whole capacity and the former storage released. vector_pop_back and vector_erase remove exactly the last element and the element at the index (an index outside changes nothing), keeping the order of the others and the capacity. vector_free releases the storage and empties the vector. vector_size, vector_capacity, vector_empty, vector_begin and vector_end report the state, also for an empty vector.',
  quant='all sizes and capacities (up to 2^28 elements), element types of 1, 2, 4 and 8 bytes, contents', over=['inputs', 'histories'], why='there is no test of the vector; wrong growth shows only when size meets capacity',
  files=['modules/core/include/c_include/vector.h'], mech='macros over a header of two words in front of the elements', note='verified through one function per macro and element type (props/cxx/vec.c)'),
 dict(id='C12', title='Erosion, dilation, opening and closing follow their definition',
  statement='On a single-channel byte plane and a structuring element that is not larger than the plane, erosion keeps a nonzero pixel exactly if the window of the element around the pixel does not fit into the plane or every pixel under a set cell is nonzero, and makes every other pixel 0. Dilation makes a zero pixel 1 exactly if the window fits and a nonzero pixel lies under a set cell, and keeps every other pixel. Opening with one iteration is the erosion followed by the dilation, closing the dilation followed by the erosion; with no iteration, or with an element larger than the plane, erosion, dilation, opening and closing write nothing. Source and element are untouched and nothing is leaked.',
  quant='all plane sizes (rows and columns up to 2^30), all structuring element sizes and cells, all pixel values; source and destination distinct; opening and closing for at most one iteration',
  why='there is no test of these functions; a wrong stride or a swapped height and width shows only for non-square planes or elements, a wrong border test only near the border', files=['modules/process/src/c_src/morphology.c'],
  mech='four nested loops with a border test and a flag; opening and closing combine the two through an intermediate plane'),
 dict(id='C22', title='Drawing points and lines colours exactly their pixels',
  statement='draw_POINT makes the destination a copy of the source in which exactly the pixels of the squares of side 2*(size/2)+1 (size at least 0) centred at the given points, as far as they lie in the image, have the given colour: channels 0, 1, 2 get b, g, r; a single channel gets r. Points outside the image and squares that reach over its edge are clipped; source and points are untouched and nothing is leaked. draw_line makes it a copy in which exactly the pixels within thickness/2 columns of the straight line through two points (with different x; a column x of the image belongs to row trunc(k*x+b+0.5), k and b being slope and offset) have the colour: channels 0, 1, 2 get r, g, b.',
  quant='all image sizes (sides up to 2^29; lines: 2^14), contents, lists of points (coordinates of magnitude up to 2^29; lines: 2^14), colours and sizes, 1 and 3 channels; floats as real numbers', why='no test draws points; wrong clipping shows only at the border, a swapped row and column only for non-square images',
  files=['modules/highgui/src/draw.c'], mech='a loop over points around two loops over the square, all writing the same image'),
 dict(id='C23', title='The integral image holds the sums of rectangles',
  statement='hypercv_integral of a single-channel byte image stores at row i and column j of the destination (32-bit integers, same size) the sum of all source pixels in rows 0..i and columns 0..j, first row and column included. The source is untouched and nothing is leaked.',
  quant='all image sizes with 510 * rows * columns below 2^31, all contents', why='there is no test; a wrong first row or column spoils every rectangle sum taken from the image',
  files=['modules/process/src/c_src/filter.c'], mech='a recurrence over the elements to the left and above'),
 dict(id='C26', title='Image pyramid levels are resampled smoothed images',
  statement='Down: the (rows+1)/2 by (cols+1)/2 destination is every second row and column of the source smoothed with the 5x5 binomial filter (1,4,6,4,1)/16 in each direction, borders replicated, each direction limited to 0..255 and the result rounded. Up: the destination of twice the rows and columns is the smoothed (1,4,6,4,1)/8 image that has the source at even rows and columns and 0 elsewhere. Sources are untouched and the intermediate images are released.',
  quant='all image sizes of at least 2 by 2 (byte size of the intermediate below 2^31), all contents, 1 and 3 channels; floats as real numbers', why='there is no test of the pyramid; errors at odd sizes, borders or with several channels go unseen',
  files=['modules/process/src/c_src/GeometricTransformation.c', 'modules/process/src/c_src/filter.c'], mech='resampling loops around the separable filter'),
 dict(id='C27', title='Shape moments and shape similarity follow Hu',
  statement='calc_hu_moment of a single-channel byte image that is not all zero stores the seven invariant moments of Hu: polynomials in the central moments up to order 3 about the centre of gravity rounded to whole pixels, normalised by m00^2 (order 2) and m00^2.5 (order 3). The similarity of two images is 1 - sum |a_i-b_i| / sum |a_i+b_i| over their moments. Images are untouched and nothing is leaked.',
  quant='all image sizes (sides up to 2^22) and contents with a nonzero pixel; similarity where the denominator is not 0; floats as real numbers', why='there is no test of the moments; wrong terms show only for asymmetric shapes',
  files=['modules/algorithm/src/shapematch.c'], mech='two double loops accumulating ten sums and closed formulas over them', note='pow with exponent 5/2 is an uninterpreted function'),
 dict(id='C28', title='Target detection computes the constrained energy minimisation filter',
  statement='hyper_mat_cem of a float band-sequential cube x with n pixels and a target spectrum d yields a lines x samples float image whose pixel p is the CEM response d\' W x(p) / d\' W d, where R is the matrix of band correlations, R(i,j) = sum over the pixels of x_i x_j / n, and W what invert_matrix_float makes of R; cube and target are untouched, nothing else stays allocated. invert_matrix_float yields the inverse of a regular matrix, exchanging rows when a pivot is zero (decided for sizes up to 3 only, labelled bounded).',
  quant='all cube sizes with images below 2^31 bytes, contents and targets; inverse: 1x1, 2x2 and 3x3 with the zero patterns listed in the cases; floats as real numbers', why='the test prints the image and checks nothing; the filter was computed into the target spectrum',
  files=['modules/algorithm/src/cem.c', 'modules/process/src/c_src/matrixprocess.c'], mech='correlation, inversion and three products chained through temporary matrices', note='hyper_mat_cem is proved; invert_matrix_float enters it as an assumed contract (it stores W in the result and overwrites its argument) and is itself only checked bounded (sizes 1 to 3)'),
 dict(id='C29', title='Wavelet filter banks hold the right coefficients and are released whole',
  statement='set_wavelet_base yields for Daubechies-3 (6 coefficients) and biorthogonal 3.7 (16) a bank of four arrays of its own, in the reversed order the convolution needs: the published low passes, and high passes that are the quadrature mirrors (alternating signs) of the opposite low passes. wavelet_base_free and wt_info_free release the object and every array it has, once, with any of them missing, and accept NULL.',
  quant='both wave types, every combination of present and missing arrays of any length', why='nothing tests the filter banks: a wrong sign or a missing coefficient shows only in reconstructed images',
  files=['modules/process/src/c_src/dwt.c'], mech='constant tables, reversed copies and pointer-guarded releases'),
]
