VG = "dataflow: hash-consed gated value graph over go/ssa, with polynomial range analysis"
VGN = "Sound for the integer arithmetic of the analysed functions as go/ssa gives it: every path, all inputs at once. Trusts go/types, go/ssa and the models of a handful of library functions (DESIGN.md); what cannot be decided is reported as a violation."
NOTES = "Every check type-checks /repo's current tree (with stand-ins in stubs/ for three modules that are not installed, declarations only being used), builds SSA and decides one property from it; nothing of /repo is run."
COMP = ["composite.go", "internal/nrgba.go", "internal/minmax.go"]
PROPS = [
 dict(id="C01", title="Blending treats red, green and blue apart and alike",
  statement="In the Normal mode and in each of the fifteen per-channel blend modes, a colour channel of the composed pixel depends on that channel of the two pixels and on their alphas and on nothing else. Red, green and blue are computed by one and the same function.",
  q="for every pair of straight-alpha pixels and every one of the sixteen modes", why="no test composes two pixels; a swapped channel shows only on pixels whose channels differ, of 2^128 pairs",
  files=COMP, mech=[("per-channel blend and mix", "composite.go: Composite.Composite, blend")], tech=VG, note=VGN),
 dict(id="C02", title="Each blend mode computes its published formula",
  statement="Over opaque pixels the fifteen per-channel modes give the documented GIMP formula (multiply, screen, overlay, difference, addition, subtract, darken, lighten, divide, dodge, burn, hard light, soft light, grain extract, grain merge), clamped to the channel range and exact up to rounding, at the ends of the ranges too. The hue, saturation, value, colour and luminosity modes take the named HSV or HSL components from the top pixel and the others from the bottom pixel, hue of a gray top pixel excepted.",
  q="for all 2^32 pairs of channel values in each mode", why="tests compose nothing; the ends of ranges and the branch boundaries are single points among 2^32",
  files=COMP+["lcolor/hsl.go"], mech=[("blend functions", "composite.go: compositeMultiply … compositeGrainMerge, compositeHue …")], tech=VG, note=VGN+" The formulas are written down in tool/rules_composite.go, with tolerances of 2 to 4 in 65535."),
 dict(id="C03", title="Alpha decides how far the top pixel shows",
  statement="A fully transparent top pixel leaves the bottom as it was in every mode, and in the blend modes the result has the bottom's alpha, a transparent bottom stays transparent, the top counts as far as the less opaque of the two, and over an opaque bottom in proportion to its own alpha. Normal has the alpha of the union, is hidden wholly by an opaque top, takes nothing of a transparent bottom and otherwise mixes in proportion of the top alpha to the alpha of the result; the blend modes mix their blended colour into the bottom as Normal mixes in a pixel of that colour with the lesser of the two alphas; Behind returns the bottom; Dissolve returns the bottom or the top made opaque, by chance and the top's alpha alone, the top always if opaque.",
  q="for every pair of pixels, in every mode", why="needs particular alphas (both partial, or at an end) in each mode",
  files=COMP, mech=[("mixing by alpha", "composite.go: blend, blendColour, compositeNormal, compositeDissolve")], tech=VG, note=VGN+" The HSV and HSL conversions are taken to be functions of the three channels that keep alpha, which C05 shows."),
 dict(id="C04", title="Blending never wraps, divides by zero or panics",
  statement="For every mode and every pair of pixels, composing them wraps no integer around, cuts no significant bits off, divides by nothing that can be zero, and reaches no panic.",
  q="for every mode and pair of pixels", why="an overflow shows only near the ends of the ranges, for particular alphas",
  files=COMP, mech=[("clamping and 32 bit intermediates", "composite.go: clamp, blend")], tech=VG, note=VGN),
 dict(id="C05", title="HSV and HSL conversions compute what defines the models, and keep alpha",
  statement="RGBToHSV gives the largest channel as value, 65535*(max-min)/max as saturation and the hue of the hexagon as a fraction of 65535 in each of the six orders of the channels; RGBToHSL gives half of max+min as lightness and its own saturation on either side of the middle; a gray has no saturation. HSVA.ToNRGBA and HSLA.ToNRGBA give, sextant by sextant of the hue, the largest, middle and smallest channels by their definitions, up to rounding (four in 65535). Both directions keep alpha as it is, and the components do not depend on it. None of them divides by zero or reaches a panic.",
  q="for every colour, and for every hue, saturation, value or lightness and alpha", why="no test converts a colour; the six orders and six sextants meet at boundaries that are single values among 2^48",
  files=["lcolor/hsl.go", "internal/nrgba.go", "internal/minmax.go"], mech=[("conversions", "lcolor/hsl.go: RGBToHSL, RGBToHSV, colourToHue, ToNRGBA, hcmaToColour")], tech=VG, note=VGN),
 dict(id="C06", title="Colour types and models agree with one another and keep alpha",
  statement="For each colour type of lcolor, RGBA is ToNRGBA premultiplied by alpha (within one), no channel exceeds alpha, and channels and alpha are the stored ones; ColourToNRGBA reads every straight colour exactly and divides a premultiplied one by its alpha; a model leaves colours of its own type alone, always gives its own type, and computes gray without regard to alpha; AlphaPalette picks the nearest entry by colour alone and keeps alpha.",
  q="for every colour of every type", why="tests convert no colours; the errors are in particular alphas",
  files=["lcolor/gray.go", "lcolor/rgb.go", "lcolor/indexed.go", "lcolor/hsl.go", "lcolor/models.go", "internal/nrgba.go"], mech=[("RGBA and ToNRGBA", "lcolor/*.go"), ("models", "lcolor/models.go, grayAlphaColourModel, rgbColourModel, AlphaPalette"), ("straight colours", "internal/nrgba.go: ColourToNRGBA")], tech=VG, note=VGN),
 dict(id="C07", title="A pixel image reads and writes the pixel of the point, and only inside its rectangle",
  statement="For RGB, GrayAlpha and PalettedAlpha, a new image has a slice of width times height zero pixels; PixOffset is the row-major address for any origin and stride; reading a point gives the pixel at its address inside the rectangle and the zero colour outside; setting a point stores the colour as converted by the image's model there, changes no other pixel, and does nothing outside; no access goes beyond the slice of an image whose slice holds its rectangle.",
  q="for every rectangle, stride, point and colour", why="tests make no such image; needs origins other than zero or a stride other than the width",
  files=["rgb.go", "grayalpha.go", "indexedalpha.go", "lcolor/gray.go", "lcolor/rgb.go", "lcolor/indexed.go"], mech=[("addressing", "rgb.go, grayalpha.go, indexedalpha.go: PixOffset, At, Set, New…")], tech=VG, note=VGN+" Coordinates and strides are taken to be within 2^20, so that no address overflows int."),
 dict(id="C08", title="A sub-image shows the same pixels at the same points, and shares them",
  statement="The sub-image of RGB, GrayAlpha and PalettedAlpha has exactly the points of both the image and the rectangle, shows the image's pixel at each of them, and what is set in it shows in the image; a paletted one keeps its palette. A layer's sub-image has the bounds shared by both, gives the layer's colour at each point and keeps its name, mode, visibility and transparency. An image's sub-image holds the sub-image of every layer, in order.",
  q="for every image, rectangle and point", why="needs rectangles that start inside the image; no test takes a sub-image",
  files=["rgb.go", "grayalpha.go", "indexedalpha.go", "layer.go", "image.go"], mech=[("sub-images", "SubImage of each image type; layer.go: SubImageLayer; image.go: Image.SubImage")], tech=VG, note=VGN),
 dict(id="C09", title="Opaque is true exactly of images whose pixels all have full alpha",
  statement="Opaque of GrayAlpha and PalettedAlpha looks at every pixel, is false as soon as one has less than full alpha, is never false on account of a pixel that has full alpha, and is true only past the last pixel. RGB, which has no alpha, is always opaque.",
  q="for every image", why="needs an image whose only translucent pixel is in a particular place",
  files=["rgb.go", "grayalpha.go", "indexedalpha.go", "lcolor/rgb.go"], mech=[("Opaque", "rgb.go, grayalpha.go, indexedalpha.go")], tech=VG, note=VGN+" The loop is summarised with a symbolic counter, not unrolled."),
 dict(id="C10", title="An image is its visible layers composed from the bottom up",
  statement="The colour of an image at a point is had by starting from the transparent colour and composing, from the last layer to the first, every visible layer whose bounds contain the point, and no other, with that layer's own mode over what lies below; an image without layers is transparent. Image.Bounds is the union of its layers' bounds and a layer's bounds are where its image is, moved by its offset.",
  q="for every list of layers and every point", why="tests have no image whose layers overlap; order, visibility and bounds each need layers of their own",
  files=["image.go", "layer.go"], mech=[("composition over the stack", "image.go: Image.At, Image.Bounds"), ("placing", "layer.go: Layer.Bounds, Layer.At")], tech=VG, note=VGN+" The loop over layers is summarised by its recurrence, for any number of layers."),
 dict(id="C11", title="Transparency and masks scale a pixel's alpha alone",
  statement="A layer shows the pixel of its image that its offset puts at the point. Its transparency scales the pixel's alpha by (255-t)/255 within one, leaving the colour alone: at no transparency the pixel is as it was and at full transparency nothing shows. A masked image has at every point the colour of its image with the alpha scaled by the mask's at the same point.",
  q="for every pixel, transparency and mask value", why="tests use one transparency; the ends and the middle of the range differ",
  files=["layer.go", "misc.go", "internal/nrgba.go"], mech=[("transparency", "layer.go: Layer.At"), ("masks", "misc.go: MaskedImage.At")], tech=VG, note=VGN),
 dict(id="C12", title="Looking at an image or a colour, or encoding it, changes nothing",
  statement="Asking an image, layer, mask, colour, palette or mode for a pixel, its bounds, model, address, opacity, name, conversion, composition or sub-image writes no memory that was there before, be it the image's, its argument's or a global, except under a lock, so that an image may be read from several goroutines at once; encoding an image as ORA or XCF likewise leaves the image as it was.",
  q="for every image and every schedule of readers", why="a write in a reader shows as a race or as a later wrong pixel, which no test of one call can see",
  files=["rgb.go", "grayalpha.go", "indexedalpha.go", "image.go", "layer.go", "misc.go", "composite.go", "lcolor/hsl.go", "ora/encode.go", "ora/thumbnail.go", "xcf/compressed.go", "xcf/encoder.go"], mech=[("readers", "At, Bounds, Opaque, SubImage … of every image type"), ("encoders", "ora.Encode, xcf.Encode")], tech="store-effect analysis over access paths with per-function summaries", note="Sound for SSA stores, copies, appends and calls within the repository; library functions are modelled by what their arguments allow them to write, and methods of foreign images and colours are taken to only look. Decompressing a tile of a compressed XCF image is a recorded finding."),
 dict(id="C13", title="Every composite mode has a name, its own, and any value can be printed",
  statement="The String of each exported composite mode is the name of its constant, ignoring case and spaces; no two modes share a name; and no value of the type, known or unknown, makes String fail.",
  q="for each of the modes and every value of the type", why="a swapped pair of names in a table goes unnoticed unless each is looked at",
  files=["composite.go"], mech=[("names", "composite.go: Composite.String")], tech=VG, note=VGN),
 dict(id="C14", title="Reading at an offset honours io.ReaderAt",
  statement="The ReaderAt the decoders make from a seekable reader seeks to the offset it was asked for before it reads, reads until the buffer is full, says how much it read, gives an error whenever that is less than asked (io.EOF at the end), skips a seek only when it knows the reader to stand at the offset already, and does all that with its lock held and released on every path. The fields reached through unsafe in a bufio.Reader are those the library has at those offsets, and the reader chosen for a source that offers several is one over the very source given.",
  q="for every offset, buffer and behaviour of the underlying reader", why="short reads, failing seeks and interleaved calls are not sampled by any test",
  files=["internal/bufioToReader.go"], mech=[("readerAt", "internal/bufioToReader.go: readerAt.ReadAt"), ("unsafe view of bufio.Reader", "internal/bufioToReader.go: bufioReader")], tech="typestate over the events of every path; layout comparison through go/types sizes", note="Sound for the paths of the analysed functions; the contracts of io.Seeker and io.Reader are those of the standard library's documentation."),
 dict(id="C15", title="A layer's attributes survive an ORA file",
  statement="For every layer and group, whatever its name, offset, visibility, transparency and mode, the attributes ora.Encode writes for it are accepted by ora.Decode and give back the same name, offset (negative and large ones too), visibility and transparency (each of the 256), and the same mode if OpenRaster has a name for it, and normal otherwise. Each mode is written and read under the name OpenRaster gives it, and opacities outside 0 to 1 are taken for the nearer end.",
  q="for every layer, combination of attributes, transparency and mode", why="writer and reader are apart, each mistake needs a particular value, and a table wrong in both is invisible to a round trip",
  files=["ora/encode.go", "ora/stack.go"], mech=[("writer", "ora/encode.go: the function that writes a layer's element"), ("reader", "ora/stack.go: the function that reads a layer from its element")], tech=VG, note=VGN+" strconv's parsers are taken to undo its formatters (Atoi of Itoa, ParseFloat of FormatFloat with the shortest form); XML escaping is encoding/xml's."),
 dict(id="C16", title="Each layer of an ORA file is named for the part that holds its pixels",
  statement="ora.Encode gives every layer that is not a group one part of its own, however deep in groups (held by value or by pointer) it lies, hidden or not; the part holds the PNG of that layer's image and nothing else, no two layers have the same part, and the src of the layer's element in stack.xml is the name of just that part. The elements are in the order of the layers, each group's within its own.",
  q="for every tree of layers", why="the pixels and the elements are written by two separate walks down the layers that have to count alike",
  files=["ora/encode.go"], mech=[("walk of the data", "ora/encode.go: writeLayers, writeGroup"), ("walk of the elements", "ora/encode.go: writeStack, writeGroupStack")], tech=VG, note=VGN+" Induction over the depth of the tree: what is shown of a layer is assumed of the layers of its groups."),
 dict(id="C17", title="ora.Encode writes a whole OpenRaster archive",
  statement="When ora.Encode gives no error the archive has the mimetype part first, stored and saying image/openraster, then once each stack.xml, mergedimage.png and Thumbnails/thumbnail.png, each written while it is the last part begun; stack.xml is one image element with the width and height of the image's bounds, holding one stack, every element begun being ended in its place, and is flushed; mergedimage.png is the picture of the image, the thumbnail is the image itself if neither side is over 256 and a view of it otherwise. The archive is closed once, after all else, on every way out, and a failure to finish it is an error.",
  q="for every image and every writer, failing anywhere", why="needs failing writers and readers of the format other than this one",
  files=["ora/encode.go"], mech=[("container", "ora/encode.go: Encode, writeImage"), ("elements", "ora/encode.go: writeStack, writeGroupStack")], tech="typestate over the events of every path, with the value graph for what is written", note="Sound for the paths of the analysed functions; that archive/zip, encoding/xml and image/png write what they are told is their documentation's."),
 dict(id="C18", title="The ORA codec reports every failure and leaves nothing open",
  statement="In ora.Encode, Decode and DecodeConfig, at any depth of groups, whenever a call that can fail did fail (creating or writing a part, encoding or decoding a picture, writing or reading an XML token, opening a part, parsing a number) the result is an error, also when it happened in one round of a loop and later rounds go well; and each part opened for reading is closed on every way out.",
  q="for every failure of every call", why="tests do not inject failures; each call is another place to forget one",
  files=["ora/encode.go", "ora/decode.go", "ora/stack.go"], mech=[("errors of the encoder", "ora/encode.go"), ("errors of the decoder", "ora/decode.go, ora/stack.go")], tech="path conditions of the value graph; typestate of opened parts", note="Sound for the calls of the analysed functions. Closing a part that was only read is not counted as a call that can fail."),
 dict(id="C19", title="ora.Decode reads the layers stack.xml tells of, in place and order",
  statement="Decode reads the part named stack.xml, refuses an archive whose mimetype part does not say image/openraster, takes the canvas size from w and h of the image element (as DecodeConfig does; both must be there and neither negative), and gives the layers of the first stack: one for every layer and stack element directly in it, in their order, each read up to its end and no further, other elements being skipped whole, until the stack ends. A layer shows the picture in the part its src names, a group the layers of its own stack. The bounds of a layer are those of its picture at the place the attributes give, relative to the group it is in, and cut off, never inverted, at the far edges of the canvas.",
  q="for every archive and every nesting of elements", why="the test files have a handful of flat layers and no foreign elements; nesting, offsets and clipping combine",
  files=["ora/decode.go", "ora/stack.go"], mech=[("container", "ora/decode.go: Decode, DecodeConfig, getStack, getDimensions"), ("layers", "ora/stack.go: readStack, readLayer, skipTag")], tech=VG, note=VGN+" The loops over tokens are judged by their recurrence, for any sequence of tokens; the XML and zip parsing is the standard library's."),
 dict(id="C20", title="No ORA file makes the decoder panic or run without end",
  statement="Whatever is in the archive, ora.Decode and ora.DecodeConfig reach no panic of their own (no index, nil, type assertion, slice or length that can fail), each round of each of their loops either takes the next of a list of known length or reads a token of the XML, and groups are nested only to a fixed depth before the file is refused.",
  q="for every archive", why="hostile input is not sampled by tests; a stack overflow cannot even be recovered from",
  files=["ora/decode.go", "ora/stack.go"], mech=[("panics", "ora/decode.go, ora/stack.go"), ("depth", "ora/stack.go: readStack")], tech="panic obligations and loop progress over the value graph; bounded recursion counter", note=VGN+" What the standard library's zip, XML and image decoders do with hostile input is theirs."),
 dict(id="C22", title="Each property of an XCF file is read or skipped whole",
  statement="In the property lists of the image, of a layer and of a channel, whatever properties there are, known or not, in whatever order, the reader stands after each at the beginning of the next: it takes the bytes the length of the property says, or those the kind of the property has (4 for a mode, 8 for an offset, 5 for each guide, 3 for each colour of a map and 4 for their number, the strings of a unit, the parasites, paths, points and strokes that its own counts tell of), so that every later property and all that follows the list is read from its place.",
  q="for every property, its contents and order", why="the test files have few of the forty properties; one that is read a byte short shifts everything after it",
  files=["xcf/decoder.go", "xcf/layer_decode.go", "xcf/channel.go", "xcf/skip.go", "xcf/parasites.go"], mech=[("list of the image", "xcf/decoder.go: readImageProperties"), ("list of a layer", "xcf/layer_decode.go: layer.readProperties"), ("list of a channel", "xcf/channel.go: skipProperties"), ("skipping", "xcf/skip.go")], tech=VG, note=VGN+" The bytes are counted without the wrapping of 32-bit numbers, for a file in which no read fails; a parasite has a name."),
 dict(id="C21", title="XCF files of every version are read from the right places",
  statement="Decode, DecodeCompressed and DecodeConfig accept files of versions file and v001 to v013 and refuse any other header with an error before reading on. After the header they take width, height and base type, from version 4 on also the precision, and then the properties. Pointers have four bytes before version 11 and eight from it on: the list of layers (up to a pointer of zero), those of a layer to its picture and its mask, of a picture to its level, of a level to its tiles and of a mask to its picture. Each pointer that is followed is one that was read, in its full width, wherever in the file it points; DecodeConfig gives the width, the height and the colour model the file says.",
  q="for every version and every position in files of any size", why="the test files are of few versions and small; each width is decided in several places by itself",
  files=["xcf/decoder.go", "xcf/layer_decode.go", "xcf/channel.go", "xcf/image_decode.go", "xcf/reader.go"], mech=[("header", "xcf/decoder.go: readHeader, decodeImage, DecodeConfig"), ("layers", "xcf/decoder.go: readLayerPointers, readLayers; xcf/layer_decode.go: ReadLayer"), ("pictures", "xcf/image_decode.go: ReadImage, readTiles; xcf/channel.go: ReadChannel")], tech=VG, note=VGN+" For a file in which no read fails; the position in the file is counted along every path. Of headers that are to be refused a selection is tried; what the pixel readers do within a tile is not looked at here."),
 dict(id="C23", title="The layers of an image survive an XCF file",
  statement="What xcf.Encode writes for an image, xcf.Decode and DecodeCompressed accept, and they give back the same layers in the same order and the same groups: each with its name, bounds (wherever it lies, in a group or not, before the beginning of the canvas too), transparency and visibility, its own picture and, if it had one, its own mask, a group's mask included. A layer, a group or a masked image may be held by value or by pointer. A picture that is no layered image comes back as one visible layer of its size with its pixels.",
  q="for every size, place, name, transparency and visibility of the layers of each of a set of trees (groups in groups, masks, pointers; in the thorough tier every tree of up to five nodes)", why="there is no test that writes a file and reads it; each attribute is told in one place and believed in another, and nesting, masks and offsets combine",
  files=["xcf/encoder.go", "xcf/writer.go", "xcf/layer_encode.go", "xcf/decoder.go", "xcf/layer_decode.go", "xcf/channel.go", "xcf/image_encode.go"], mech=[("layers", "xcf/encoder.go: Encode; xcf/layer_encode.go; xcf/decoder.go: Decode, readLayers"), ("groups", "xcf/decoder.go: makeGroups; xcf/layer_decode.go: readProperties")], tech=VG, note=VGN+" The calls of the writer are followed in order and the file is the set of what was written at each place; the reader is then followed over it. For images whose layers lie within what an XCF file can tell (sizes and offsets below 2^17 here, names below 1000 bytes) and a writer and reader that do not fail; a picture or mask that is read from where one was written, with the same size and channels, counts as that one (how pixels are told is not looked at here)."),
 dict(id="C24", title="Blend modes have the numbers of the format in XCF files",
  statement="For each blend mode that the XCF format has, xcf.Encode writes a number that means that mode in the format, whatever the colours of the image, and Decode gives the layer that mode back; modes that it has not are written as normal (luminosity as luminance). Of all the numbers a layer can have, Decode gives each the mode it means (the old and the new set alike), and unknown ones are normal.",
  q="for each mode, each number and each kind of image", why="no test writes a mode; a slip in one entry of a table of sixty shows in no other, and one in both tables survives a round trip",
  files=["xcf/layer_encode.go", "xcf/layer_decode.go"], mech=[("writing", "xcf/layer_encode.go: modeID"), ("reading", "xcf/layer_decode.go: layer.readMode")], tech=VG, note=VGN+" The meaning of the numbers is a table in the check, from the format's documentation (app/core/gimp types), as far as this library has a mode for them."),
 dict(id="C25", title="xcf.Encode writes a file of the XCF format",
  statement="What xcf.Encode writes begins with the header of one of the versions it keeps to, the size of the image, its base type and properties with the compression and, for an indexed image, the colour map with its colours. Each layer is in the list of layers, in order with the layers of a group after it, ended by a zero, and each pointer leads to what was written for it. Every property is as long as it says, each layer has its own size, its name with the length of what is written of it and a zero at its end, opacity, visibility, mode, its offset from the canvas (of a layer in a group too), is a group if it is one, and its path leads to it; its picture has its size and its mask too. Nothing is written that belongs to nothing.",
  q="for the sizes, names, places and attributes of the layers of each of a set of trees", why="a mistake that the reader of this repository shares or does not mind is seen only by other programs, which no test has",
  files=["xcf/encoder.go", "xcf/writer.go", "xcf/layer_encode.go", "xcf/channel.go", "xcf/image_encode.go"], mech=[("file", "xcf/encoder.go: Encode"), ("layers", "xcf/layer_encode.go: WriteLayers, WriteLayer, writeProperties"), ("masks", "xcf/channel.go: WriteChannel")], tech=VG, note=VGN+" An independent reader of the format, in the check, goes over what was written at each place. The contents of parasites and of pictures are not looked at here."),
 dict(id="C26", title="xcf.Encode writes every pixel, where the format has it",
  statement="For every picture that xcf.Encode writes (RGB, gray, indexed, each with alpha, and a mask) the level it points to has, by the rules of the format, the bytes of just that picture: its size and number of channels, one pointer for each tile of 64 by 64 in rows, those at the right and bottom edges cut to what is left, in each tile the planes of its channels one after another, and in each plane runs and literals (short and long forms) that make up as many bytes as the tile has pixels, with the value of each pixel at its place, whatever the values are and however they repeat.",
  q="for each of a set of sizes and patterns of repetition (over tile edges, and around the 127, 128, 255 and 256 bytes at which the forms of a run change; in the thorough tier many more), and every value of the pixels within", why="no test writes more than a few pixels; which form a run takes depends on its length and on what is before it, and a slip moves everything after",
  files=["xcf/image_encode.go", "xcf/rle.go", "xcf/channel.go", "xcf/writer.go"], mech=[("tiles", "xcf/image_encode.go: WriteImage"), ("runs", "xcf/rle.go: WriteRLE, WriteRLEData"), ("masks", "xcf/channel.go: WriteChannel")], tech=VG, note=VGN+" The pixels are symbols of which it is known only which neighbours differ; what is written at each place is expanded by an independent reader of the format in the check. The stated sizes and patterns only; for an indexed image the colours are ones of its palette, of three."),
dict(id="C27", title="XCF pictures have the pixels of the file, compressed in memory or not",
  statement="For a picture or mask in an XCF file, of any of the six kinds, with its tiles wherever they lie, plain (of one channel) or made of runs and literals in any mixture of the short and long forms, the image that Decode gives and the one that DecodeCompressed gives have at every point, whichever is looked at first, the colour whose channels are the bytes the file has for it: plane by plane and tile by tile, the tiles at the right and bottom edges cut to what is left, an index being that of its colour in the colour map, and kinds without alpha opaque.",
  q="for each of a set of sizes and patterns of runs (over tile edges, around the lengths at which the forms of a run change), each kind, plain and compressed, and every value of the pixels within", why="the test files have few kinds and the compressed images are hardly looked at; the arithmetic of the edge tiles and the forms of the runs combine",
  files=["xcf/image_decode.go", "xcf/rle.go", "xcf/compressed.go", "xcf/channel.go"], mech=[("tiles", "xcf/image_decode.go: ReadImage, readAndDecompressImage, readCompressedImage"), ("runs", "xcf/rle.go: rle.Read, decoder.readRLE"), ("compressed images", "xcf/compressed.go: decompressTile and the At methods")], tech=VG, note=VGN+" The files are laid out by the check by the rules of the format, their bytes being symbols; every pixel is looked at in small pictures, those near the edges of tiles in large ones. The stated sizes and patterns only; io.ReadFull and the buffers of memio are followed in their source (that of memio a stand-in)."),
 dict(id="C28", title="The XCF codec reports every failure to read, write or seek",
 statement="Whenever one write of xcf.Encode fails, or one read or one seek of xcf.Decode, DecodeCompressed or DecodeConfig fails or meets the end of the file, be it in the header, a property, a list of pointers, a layer, a mask, a group or the pixels, in whichever layer, plain or compressed, the result is an error, also when all that is done afterwards goes well; and none of them panics for it.",
 q="every write, read and seek of the codec, failing while the others go well",
 why="no test has a reader or writer that fails; a lost error shows only when one particular access fails and the ones after it do not",
 files=["xcf/decoder.go","xcf/reader.go","xcf/skip.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/channel.go","xcf/rle.go","xcf/encoder.go","xcf/writer.go","xcf/layer_encode.go"],
 mech=[("readLayers","xcf/decoder.go"),("pointerWriter.WritePointer","xcf/writer.go"),("reader.Goto","xcf/reader.go"),("rle.Read","xcf/rle.go")],
 tech="error-flow: gated value graph with one failing access at a time, over laid out files", note=VGN+" Each access of a laid out file (three layers with a group and a mask, all sorts of properties, runs, plain, wide pointers) fails in turn; an access is one call of the reader, writer or seeker, numbered along the path. Parasites of text layers and pictures of more than one tile are not among them.", over=["inputs","fault_sequences"]),
]
