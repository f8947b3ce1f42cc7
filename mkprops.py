#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
B = "src/pdfmm/base/"
P = []
NA = {}
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[B + f if "/" not in f else f for f in files], mech=mech, technique=technique, note=note))

prop("C01", "A value written by the library reads back as the same value",
     "Every PDF value (null, boolean, integer, real, string, name, reference, array, dictionary, at any nesting), alone, in a run of values or as an indirect object with a stream, is serialised in every write mode to legal PDF syntax that both the library's tokenizer and an independent parser read as that value; reals keep six decimals. Nothing follows the value in the text, adjacent values stay separate, and writing what was read gives the same text again.",
     ["inputs"], "every value tree and every write mode",
     "The unit tests write and read a few dozen literal values; the guarantee is over all value trees, escapes, magnitudes and adjacent-token combinations.",
     ["PdfVariant.cpp", "PdfString.cpp", "PdfName.cpp", "PdfArray.cpp", "PdfDictionary.cpp", "PdfReference.cpp", "PdfObject.cpp", "PdfTokenizer.cpp", "PdfParserObject.cpp"],
     [("value writer", "PdfVariant::Write / PdfObject::Write"), ("tokenizer", "PdfTokenizer::TryReadNextVariant")],
     "property-based round trip against an independent PDF parser (generated value trees)", "generated search; reals compared to 5e-7")
prop("C02", "Every legal spelling of a value is read as that value",
     "However a PDF value is legally spelled (white space, comments, escapes, octal codes, line continuations, balanced parentheses, hex digits and odd lengths, name escapes, signs, leading or trailing zeros, key order), the tokenizer returns the value the spelling denotes. In a run of such values each one is read in order and none is lost or invented, whichever input device the bytes come from.",
     ["inputs"], "every legal spelling of every value tree, every sequence of them",
     "Tests hold hand-picked spellings; the spelling space is infinite and errors hide in combinations such as an octal escape before a parenthesis.",
     ["PdfTokenizer.cpp", "PdfString.cpp", "PdfName.cpp", "PdfStreamDevice.cpp"],
     [("tokenizer", "PdfTokenizer::TryReadNextToken, DetermineDataType, ReadString, ReadHexString, ReadName")],
     "grammar-based generation of spellings with a reference parser as oracle", "generated search; oracle self-checked on every case")
prop("C03", "Strings and names keep their text",
     "A string built from UTF-8 text, or read from PDFDocEncoding, UTF-16 or UTF-8 bytes, reports exactly that text, and after being written its bytes denote that same text to any conforming reader; names built from text or raw bytes keep them through escaping. Two strings compare equal exactly when they hold the same text however they were obtained, and name comparison, ordering and hashing agree with their bytes.",
     ["inputs"], "every text over the Unicode repertoire, every byte string, both string notations",
     "Tests try a handful of strings; defects sit at particular code points, byte-order-mark look-alikes, surrogates and evaluation order.",
     ["PdfString.cpp", "PdfName.cpp", "src/pdfmm/private/PdfEncodingPrivate.cpp", "src/pdfmm/private/PdfDeclarationsPrivate.cpp"],
     [("text strings", "PdfString::initFromUtf8String, evaluateString, Write"), ("names", "PdfName::GetEscapedName, FromEscaped")],
     "property-based round trip against reference text codecs", "generated search")
prop("C04", "Containers and variants behave as independent values",
     "Arrays, dictionaries, variants and objects behave under any sequence of operations like the mathematical sequence, map and value they model: copies and assignments (including self-assignment and moves) are deep and independent, equality is structural, inequality is its negation, and iteration, lookup and typed access agree with the contents. References are resolved through the owning document, out-of-range access is refused, and every change to an object of a document marks that object as modified.",
     ["histories"], "every operation sequence over arrays, dictionaries, variants and objects",
     "Tests exercise single operations; aliasing, ownership and dirty tracking only fail for particular sequences of copies and edits.",
     ["PdfArray.cpp", "PdfDictionary.cpp", "PdfVariant.cpp", "PdfObject.cpp", "PdfDataContainer.cpp"],
     [("value semantics", "PdfVariant::assign, operator=="), ("ownership", "PdfDataContainer::SetOwner, PdfObject::SetParent"), ("dirty flag", "PdfObject::SetDirty")],
     "stateful model-based testing against a plain value model", "generated operation sequences")
prop("C05", "Encoding a stream and decoding it returns the same bytes",
     "For any data, any chain of supported filters and any way of chunking reads and writes, encoding then decoding returns exactly the data, and decoders written by others read it too; stream contents set through any interface (whole buffer, stream, append, raw) are returned unchanged, survive copying and moving between objects, and carry a matching length and filter description.",
     ["inputs", "histories"], "every byte string, filter chain, chunking and sequence of stream operations",
     "The filter test round-trips a few buffers per filter; boundary-crossing chunks, chains and stream reuse are not enumerable by hand.",
     ["PdfFilter.cpp", "src/pdfmm/private/PdfFiltersPrivate.cpp", "PdfObjectStream.cpp", "PdfMemoryObjectStream.cpp", "PdfOutputStream.cpp", "PdfInputStream.cpp"],
     [("filters", "PdfFilter::EncodeTo / DecodeTo, BeginEncode..EndEncode"), ("object streams", "PdfObjectStream::SetData, GetInputStream, CopyTo, MoveFrom")],
     "property-based round trip and differential decoding", "generated search")
prop("C06", "Streams encoded by other producers decode to their data",
     "A stream encoded with Flate, LZW, ASCII85, ASCIIHex or RunLength in any way the format allows, with or without PNG or TIFF predictors of any geometry, and in any chain with per-filter parameters, decodes to exactly the original bytes however it is chunked. Damaged stream data raises an error or yields data, never a crash or an endless loop.",
     ["inputs"], "every legal encoding, predictor geometry and filter chain",
     "There are no tests of foreign encodings beyond a few constants; each decoder state machine has inputs our own encoders never produce.",
     ["PdfFilter.cpp", "src/pdfmm/private/PdfFiltersPrivate.cpp", "PdfObjectStream.cpp"],
     [("decoders", "PdfHexFilter, PdfAscii85Filter, PdfFlateFilter, PdfRLEFilter, PdfLZWFilter DecodeBlockImpl"), ("predictor", "PdfPredictorDecoder")],
     "property-based testing with independent reference encoders", "generated search")
prop("C07", "Saving a document and loading it again preserves its object graph",
     "For any document built through the API or loaded from a file, saving it with any combination of save options and any supported version, to a file or to memory, and loading the result gives the same objects under the same numbers with the same values and stream contents, the same catalog and information entries and the same version. Saving does not change the document in memory, and repeating save and load changes nothing further.",
     ["inputs", "configurations", "histories"], "every document graph, option set and version",
     "Tests save and reload a few fixed documents with default options.",
     ["PdfMemDocument.cpp", "PdfWriter.cpp", "PdfXRef.cpp", "PdfXRefStream.cpp", "PdfParser.cpp", "PdfParserObject.cpp", "PdfObject.cpp", "PdfIndirectObjectList.cpp"],
     [("save", "PdfMemDocument::Save, PdfWriter::Write"), ("load", "PdfMemDocument::LoadFromDevice, PdfParser::Parse")],
     "property-based save/load round trip over generated object graphs", "generated search")
prop("C08", "Saved files conform to the file structure rules",
     "Every file the library saves or incrementally updates has exact cross-reference offsets and 20-byte entries or well-formed cross-reference streams, a complete and closed free list, a /Size above every object number, exact stream lengths, a /Prev chain through all revisions, and a final startxref that leads to it, so that a strict reader that never repairs anything finds the same objects. The trailer names a root and a two-part file identifier.",
     ["inputs", "histories", "configurations"], "every document, editing history, version and save option",
     "The library's own lenient parser is the only reader in the tests, so structural errors it tolerates go unnoticed.",
     ["PdfWriter.cpp", "PdfXRef.cpp", "PdfXRefStream.cpp", "PdfXRefEntry.cpp", "PdfMemDocument.cpp", "PdfIndirectObjectList.cpp"],
     [("xref writing", "PdfXRef::Write, PdfXRefStream"), ("trailer", "PdfWriter::FillTrailerObject, CreateFileIdentifier")],
     "differential testing with an independent strict reader", "generated editing histories")
prop("C09", "Every conforming file layout loads to the graph it denotes",
     "A conforming file, whatever its layout (cross-reference tables in any sectioning, cross-reference streams with any field widths, index and predictor, hybrid files, object streams, incremental revisions that replace or free objects, any white space, line ends and comments, direct or indirect lengths, leading junk before the header), loads to exactly the objects, values and stream contents it denotes, with the newest revision winning and freed or absent objects reading as missing. Loading from memory, from a file or from a stream gives the same result.",
     ["inputs", "histories"], "every conforming layout of every object graph and revision history",
     "The parser tests use a few literal files and the test suite has one producer; layouts by other producers vary without bound.",
     ["PdfParser.cpp", "PdfParserObject.cpp", "PdfObjectStreamParser.cpp", "PdfXRefStreamParserObject.cpp", "PdfXRefEntry.cpp", "PdfIndirectObjectList.cpp"],
     [("xref loading", "PdfParser::ReadXRefContents, ReadXRefSubsection, ReadXRefStreamContents"), ("object streams", "PdfObjectStreamParser::Parse"), ("delayed loading", "PdfParserObject::DelayedLoadImpl")],
     "grammar-based generation of files from a reference writer, model as oracle", "generated search")
prop("C10", "Incremental updates append and overlay",
     "An incremental update leaves the earlier bytes of the file unchanged and appends a revision which, read with them, gives exactly the edited document; objects that were not changed are not written again. Any number of updates and reloads, in any mixture of edits, additions and deletions, accumulates correctly.",
     ["histories"], "every sequence of edits, updates and reloads",
     "Tests make one or two updates; lost updates need particular sequences of edits and saves.",
     ["PdfMemDocument.cpp", "PdfWriter.cpp", "PdfXRef.cpp", "PdfObject.cpp", "PdfIndirectObjectList.cpp"],
     [("update", "PdfMemDocument::SaveUpdate, PdfWriter::SetIncrementalUpdate"), ("dirty tracking", "PdfObject::SetDirty / IsDirty")],
     "stateful model-based testing of update histories", "generated histories")
prop("C11", "Garbage collection removes exactly the unreachable objects",
     "Collecting garbage, explicitly or when saving, removes every object that cannot be reached from the trailer and keeps every object that can, through any structure of arrays, dictionaries, stream dictionaries, shared and cyclic references. The reachable graph is unchanged, and saving with collection disabled keeps everything.",
     ["inputs"], "every reference graph, including cycles, sharing and deep chains",
     "Tests hold no systematic reference graphs; wrong collection loses data only for particular shapes.",
     ["PdfIndirectObjectList.cpp", "PdfMemDocument.cpp"],
     [("mark and sweep", "PdfIndirectObjectList::CollectGarbage, visitObject")],
     "property-based testing against a reachability model", "generated graphs")
prop("C12", "Object numbers stay unique and lookups find the right object",
     "Under any sequence of creating, removing, replacing and freeing objects, no two live objects ever share a number, a removed number is reused only with the generation the file format prescribes or not at all when reuse is disabled, lookups by reference return the object that was created under it or nothing, and iteration yields exactly the live objects in order. A reference held to a removed object never silently resolves to another one after saving and loading.",
     ["histories"], "every sequence of allocations, removals and reuse, including large numbers",
     "Allocation bugs need long or unusual histories (generation wrap, large object counts, disabled reuse) no test runs.",
     ["PdfIndirectObjectList.cpp", "PdfReference.cpp", "PdfXRef.cpp"],
     [("allocation", "PdfIndirectObjectList::getNextFreeObject, AddFreeObject, RemoveObject"), ("lookup", "PdfIndirectObjectList::GetObject")],
     "stateful model-based testing", "generated operation histories")
prop("C13", "Encrypted documents keep their content and their secrets",
     "For every supported algorithm, key length, permission set and pair of passwords, a saved encrypted document opens with the user or the owner password and then holds exactly the original strings and streams, is refused with any other password, and reports the permissions it was given. An independent implementation of the standard security handler decrypts the file with either password to the same content, and no plain text of strings or streams remains in it; documents encrypted by that implementation open the same way.",
     ["inputs", "configurations"], "every document, algorithm, key length, permission set and password pair",
     "Tests encrypt a few documents and read them with the same code, so a symmetric error or a weak derivation is invisible.",
     ["PdfEncrypt.cpp", "PdfStatefulEncrypt.cpp", "PdfMemDocument.cpp", "PdfParserObject.cpp", "PdfString.cpp", "PdfTokenizer.cpp", "PdfWriter.cpp"],
     [("key derivation", "PdfEncrypt::CreateFromObject, GenerateEncryptionKey, Authenticate"), ("content", "PdfEncrypt::EncryptTo / DecryptTo, CreateEncryptionInputStream")],
     "differential property-based testing with an independent security handler", "generated search")
prop("C14", "No input makes the reader crash, overrun or hang",
     "Whatever bytes are given to the document loader, the value tokenizer, the stream decoders, the content stream reader, the character map and encoding readers, the text extractor and the image loaders, they finish in bounded time and memory, either succeeding or reporting an error, without touching memory out of bounds. Afterwards the document can be queried, saved or destroyed safely. Structures that refer to themselves, directly or through others (pages, forms, fields, outlines, name trees, streams), end like any other: a form being drawn is not entered again, and every other one is.",
     ["inputs"], "every byte string: damaged, truncated and hostile files",
     "Tests cover a dozen malformed snippets; hostile inputs are unbounded.",
     ["PdfParser.cpp", "PdfTokenizer.cpp", "PdfParserObject.cpp", "PdfObjectStreamParser.cpp", "PdfXRefStreamParserObject.cpp", "PdfFilter.cpp", "PdfCMapEncoding.cpp", "PdfContentsReader.cpp", "PdfPage_TextExtraction.cpp", "PdfPageCollection.cpp"],
     [("parsing", "PdfParser::Parse"), ("recursion limit", "PdfRecursionGuard")],
     "mutation and structure-aware fuzzing under AddressSanitizer with time and memory limits", "generated search over damaged files")
prop("C15", "The page tree is an ordered list of pages",
     "Any sequence of inserting, appending, moving and deleting pages, on new or loaded documents with any shape of page tree, behaves like the same edits on a list: every index returns the expected page, the count and page numbers agree, and saving and reloading gives the same list. Inherited attributes (resources, boxes, rotation) resolve to the nearest ancestor that defines them and are not lost when pages move.",
     ["histories", "inputs"], "every page tree shape and editing history",
     "Tests insert and delete pages in a few fixed trees.",
     ["PdfPageCollection.cpp", "PdfPageTreeCache.cpp", "PdfPage.cpp", "PdfDocument.cpp"],
     [("page tree", "PdfPageCollection::InsertPagesAt, RemovePageAt, movePage, getPageNode"), ("page cache", "PdfPageTreeCache"), ("inheritance", "PdfPage::getPageBox, GetRotationRaw, getResources; PdfDictionary::FindKeyParent")],
     "stateful model-based testing over generated page trees", "generated trees and histories")
prop("C16", "Copying pages and documents keeps them intact and independent",
     "Appending a document, appending or inserting a range of its pages, or copying a whole document gives pages with the same contents, resources, attributes and everything they refer to, in the requested order, without altering the source or the pages already present. Later changes to either document do not show in the other.",
     ["inputs", "histories"], "every pair of documents, page range and insertion point",
     "Tests append one document to another once; renumbering faults need particular object numberings and graphs.",
     ["PdfDocument.cpp", "PdfPageCollection.cpp", "PdfMemDocument.cpp", "PdfXObjectForm.cpp"],
     [("append", "PdfDocument::Append, AppendDocumentPages, InsertDocumentPageAt"), ("fix references", "PdfDocument::FixPageReferences")],
     "property-based testing with graph isomorphism as oracle", "generated document pairs")
prop("C17", "The outline is the tree that was built",
     "Any sequence of adding, nesting and removing bookmarks, on new or loaded outlines, gives exactly the tree of titles, destinations and styles that was built, walkable in both directions, with parent, sibling, first, last and count entries that agree, before and after saving and loading. Destinations of every type read back with the page and the coordinates they were given, and inserting an item that is already in the tree is refused.",
     ["histories"], "every editing history of the outline tree",
     "Tests create a fixed outline or two.",
     ["PdfOutlines.cpp", "PdfDestination.cpp", "PdfAction.cpp"],
     [("outline links", "PdfOutlineItem::CreateChild, CreateNext, InsertChild, Erase")],
     "stateful model-based testing against a tree model", "generated histories")
prop("C18", "Name trees and named destinations behave as a sorted map",
     "Adding, overwriting and looking up names in a name tree of any shape, new or loaded, behaves like a map: every name added is found with its latest value, names that were not added are not found, and enumeration yields each exactly once, whatever the encoding of the keys. Names are compared as byte strings: the stored tree stays sorted by bytes with correct limits, before and after saving.",
     ["histories", "inputs"], "every sequence of insertions, every tree shape and key set",
     "Tests insert a few keys in one order; splits and limits depend on number and order of keys.",
     ["PdfNameTree.cpp", "PdfDestination.cpp", "PdfDocument.cpp", "PdfFileSpec.cpp"],
     [("name tree", "PdfNameTree::AddValue, GetValue, ToDictionary"), ("node splitting", "PdfNameTreeNode::Rebalance")],
     "stateful model-based testing against a map", "generated histories")
prop("C19", "Form fields, annotations and actions keep what was set",
     "Every attribute set on a form field, annotation, action, destination or attachment is read back unchanged, at once and after saving and loading, without disturbing the others; fields and annotations form the lists and trees that were built, and creating or deleting one leaves the rest in place. Field values, choice lists, flags and hierarchical names follow the interactive form rules. (Check boxes use the states Yes and Off; a field that is a widget itself gets no children; an annotation has a destination or an action, not both.)",
     ["histories", "inputs"], "every combination and order of attribute settings, any field hierarchy",
     "Tests touch single attributes of single fields; interference between flags and inheritance is unexplored.",
     ["PdfField.cpp", "PdfAcroForm.cpp", "PdfAnnotation.cpp", "PdfAnnotation_Types.cpp", "PdfAnnotationCollection.cpp", "PdfAction.cpp", "PdfDestination.cpp", "PdfFileSpec.cpp", "PdfChoiceField.cpp", "PdfTextBox.cpp", "PdfButton.cpp", "PdfCheckBox.cpp"],
     [("field attributes", "PdfField, PdfChoiceField, PdfTextBox, PdfButton"), ("annotations", "PdfAnnotation, PdfAnnotationCollection")],
     "stateful model-based testing of attribute histories", "generated histories")
prop("C20", "Encodings map between text and character codes consistently",
     "For every predefined (WinAnsi, MacRoman, Standard, PDFDoc, Symbol, ZapfDingbats, identity), difference and character-map encoding, converting text to codes and back returns the text, codes decode to the characters the standard assigns, and text that an encoding cannot represent is reported, not altered. Character maps in any legal form (ranges, arrays, multi-byte codes, ligatures, surrogates) decode as specified, and an encoding written to a document reads back as the same mapping. (Character maps without usecmap and notdef ranges; private glyph names, the predefined CJK maps and the grave of Standard code 96 are outside.)",
     ["inputs"], "every code, every text over the repertoire, every legal character map",
     "Tests probe some code points; each table entry and range form is an independent way to be wrong.",
     ["PdfEncoding.cpp", "PdfPredefinedEncoding.cpp", "PdfDifferenceEncoding.cpp", "PdfCMapEncoding.cpp", "PdfCharCodeMap.cpp", "PdfEncodingMap.cpp", "PdfIdentityEncoding.cpp"],
     [("conversion", "PdfEncoding::TryConvertToEncoded, ConvertToUtf8"), ("character maps", "PdfCMapEncoding, PdfCharCodeMap")],
     "property-based testing against reference tables and a reference CMap interpreter", "generated search")
prop("C21", "Text drawn with a font is extracted as it was written",
     "Text drawn with any standard or embedded font, subset or not, at any position, size and scale, is found by text extraction as the same characters at that position, before and after saving and loading, and the widths reported for it are those stored in the document. Embedded font programs remain loadable and hold every glyph used. Text that another producer shows with any sequence of text operators, in horizontal fonts of the usual kinds, is extracted with the characters and positions that the text state rules give it. (Texts lie apart from each other; characters that share a glyph cannot be told apart in a subset; vertical writing, Type 3 fonts and rotated pages are outside.)",
     ["inputs", "configurations"], "every text the font covers, every font and embedding option, every placement",
     "Tests extract from a few sample strings; glyph subsets and code assignments differ for every text.",
     ["PdfPainter.cpp", "PdfFont.cpp", "PdfFontSimple.cpp", "PdfFontCID.cpp", "PdfFontCIDTrueType.cpp", "PdfFontTrueTypeSubset.cpp", "PdfFontManager.cpp", "PdfPage_TextExtraction.cpp", "PdfEncoding.cpp"],
     [("text drawing", "PdfPainter::DrawText"), ("subsetting", "PdfFontTrueTypeSubset"), ("extraction", "PdfPage::ExtractTextTo")],
     "property-based round trip: draw, save, load, extract", "generated search")
prop("C22", "Painted content is well formed and reads back as drawn",
     "Any sequence of painting operations yields a content stream whose operators and operands are exactly those the operations denote, in order, with balanced graphics state and text objects, readable by an independent content parser and by the library's own reader. Content streams by other producers, including inline images and split streams, are tokenised into the same operators and operands, and colours convert between spaces within rounding.",
     ["histories", "inputs"], "every sequence of painting operations, every content stream",
     "Tests compare a few operator strings.",
     ["PdfPainter.cpp", "PdfContentsReader.cpp", "PdfColor.cpp", "PdfPostScriptTokenizer.cpp", "PdfGraphicsState.cpp", "PdfContents.cpp", "PdfCanvasInputDevice.cpp"],
     [("painter", "PdfPainter"), ("content reader", "PdfContentsReader::TryReadNext")],
     "model-based generation of painting histories, independent content parser as oracle", "generated search")
prop("C23", "Images keep their pixels",
     "Raw pixels in any supported format, and PNG, JPEG and TIFF images loaded into a document, keep their size, colour space and pixel values (exactly for lossless forms), including row order, padding and transparency, before and after saving and loading, and decode to any requested pixel format consistently. (A soft mask stays when another file is loaded into the same image object; CMYK, indexed and 1-bit images are kept, not decoded.)",
     ["inputs", "configurations"], "every image size, pixel content, source format and target pixel format",
     "Tests load a few sample images.",
     ["PdfImage.cpp", "src/pdfmm/private/ImageUtils.cpp", "src/pdfmm/private/JpegCommon.cpp"],
     [("image", "PdfImage::SetData, LoadFromBuffer, DecodeTo"), ("pixel formats", "utls::Fetch*")],
     "property-based round trip with independently encoded images", "generated search")
prop("C24", "Stream devices and buffers behave like a byte sequence",
     "For any sequence of reads, writes, seeks, peeks and end tests, every stream device (memory, file, standard stream, span, string) returns the data, positions and end-of-file results of a plain byte sequence with a cursor, and refuses what it does not support. Copies, wrapped streams and the contents of a canvas read as one sequence lose or add no bytes, and numbers are formatted the same way whatever the locale.",
     ["histories"], "every operation sequence on every device kind",
     "Tests read and write a few strings; end-of-file and seek combinations are untested.",
     ["PdfStreamDevice.cpp", "PdfStreamDeviceBase.cpp", "PdfInputDevice.cpp", "PdfOutputDevice.cpp", "PdfInputStream.cpp", "PdfOutputStream.cpp", "PdfStringStream.cpp"],
     [("devices", "StandardStreamDevice, FileStreamDevice, ContainerStreamDevice, SpanStreamDevice")],
     "stateful model-based testing against a byte vector", "generated histories")
prop("C25", "Document metadata and dates are kept",
     "Title, author, subject, keywords, creator, producer, dates and other metadata set on a document are read back unchanged from the information dictionary and the XMP packet, at once and after saving and loading, in any script and order of edits. When the information dictionary and the XMP packet differ the former wins; a malformed entry does not hide the others. Dates, complete or with parts left out, convert to and from the PDF and W3C notations without changing the instant or the offset, and malformed dates (fields out of range, letters, trailing text) are refused.",
     ["inputs", "histories"], "every text, date, offset and editing order",
     "Tests parse a dozen dates and one metadata sample.",
     ["PdfDate.cpp", "PdfInfo.cpp", "PdfMetadata.cpp", "PdfXMPMetadata.cpp", "PdfXMPPacket.cpp", "PdfDocument.cpp"],
     [("dates", "PdfDate::Parse, ToString, ToStringW3C"), ("metadata", "PdfMetadata::Set..., SyncXMPMetadata")],
     "property-based round trip with a reference calendar", "generated search")
prop("C26", "Rectangles, matrices and page geometry obey their algebra",
     "Rectangles survive conversion to and from arrays whatever the corner order, and intersection, containment and page boxes obey set semantics; matrix products, translations, scalings and rotations obey their algebra within rounding. Page boxes, rotation and sizes read back as set, boxes that are not set default to the crop box and the crop box to the media box, and the rotation of a page maps its rectangle onto the displayed one.",
     ["inputs"], "every rectangle, matrix and page geometry",
     "Tests check some constants.",
     ["PdfRect.cpp", "PdfMath.cpp", "PdfPage.cpp"],
     [("rectangles", "PdfRect"), ("matrices", "Matrix")],
     "property-based algebraic laws", "generated search")
prop("C27", "Signatures cover the whole file but themselves",
     "Signing a loaded document, once or several times, yields a file whose byte ranges cover every byte except the signature contents, in order and without overlap, leave the earlier revisions untouched, and present to the signer exactly the bytes a verifier will read. Whatever size the signer asks for, the value it returns, padded with zeros, is stored exactly in the reserved place, in the file and in the document, and the rest of the file stays as conforming as before. A signature longer than what was reserved, or a document without a file, is refused.",
     ["inputs", "configurations"], "every document, signer size and signature field placement",
     "One test signs one file.",
     ["PdfSigner.cpp", "PdfSignature.cpp"],
     [("signing", "mm::SignDocument"), ("byte range", "PdfSignature::PrepareForSigning")],
     "property-based testing with a recomputed byte range", "generated search")

def main():
    lines = []
    for p in P:
        lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))))
    open(f"{V}/properties.jsonl", "w").write("\n".join(lines) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA: na.append(dict(property=i, reason=NA[i])); continue
        if not os.path.exists(f"{V}/harness/{i}.cpp"): na.append(dict(property=i, reason="check not built yet")); continue
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {i}", evidence_file=f"evidence/{i}.json",
            technique=p["technique"], level="exploration", level_note=p["note"]))
    m = dict(version=1, setup_cmd="python3 -c 'import build; print(build.VERIF)'", checks=checks, not_applicable=na)
    open(f"{V}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
    import re
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["files"]: assert os.path.exists("/repo/" + f), (p["id"], f)
    print(len(P), "properties,", len(checks), "checks")
if __name__ == "__main__": main()
