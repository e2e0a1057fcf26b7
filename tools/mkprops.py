#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per property).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("D01","A duration is written as a valid, faithful xs:duration",
 "Every non-negative duration is written as a syntactically valid xs:duration, and negative ones as the same text with a leading minus. The written text denotes the duration rounded to the nearest millisecond, halves up, when it is half a millisecond or more, and exactly to the nanosecond below that; zero is PT0S.",
 ["inputs"],"every 64-bit nanosecond duration",
 "A table of ~20 durations is tested; carries between fraction, seconds, minutes and hours happen on a vanishing fraction of the 2^64 values.",
 ["mpd/duration.go"],[("Duration.String","mpd/duration.go"),("fmtFrac, fmtInt","mpd/duration.go")],
 observe=["Duration.String","attributes of type Duration in a written MPD"])
p("D02","xs:duration text is parsed to the value it denotes or rejected",
 "A text of the form P[nD][T[nH][nM][n[.n]S]] with at least one component is parsed to exactly the time it denotes, cut to whole nanoseconds, whenever that fits the duration type. Every other text, including every negative duration and every value too large to be represented, is rejected with an error; parsing never yields a negative or wrapped result and never panics.",
 ["inputs"],"every string (checked up to the stated lengths and templates)",
 "Tests feed some thirty strings; the grammar and the overflow boundary are quantified over all strings.",
 ["mpd/duration.go"],[("ParseDuration","mpd/duration.go")],observe=["ParseDuration","Duration attributes of a read MPD"])
p("D03","Dates and seconds convert into each other without loss",
 "Converting an integral number of seconds or milliseconds since the epoch (years 1 to 9999) to a date-time gives the UTC calendar instant in RFC 3339 form with at most three decimals, and converting that date-time back to seconds gives the same instant. Converting a fractional number of seconds gives the instant cut to milliseconds. A date-time with an offset is the instant it denotes, and text that is not a date-time is rejected.",
 ["inputs"],"every instant in years 1 to 9999 at second and millisecond resolution",
 "Tests use a handful of instants; negative times, leap years, century boundaries and the 64-bit nanosecond range are not sampled.",
 ["mpd/io.go","mpd/ptrs.go"],[("ConvertToDateTime, ConvertToDateTimeS, ConvertToDateTimeMS, DateTime.ConvertToSeconds","mpd/io.go")])
p("T01","Period start, duration and type follow the DASH timing rules",
 "For every MPD with any mix of present and absent period start and duration attributes, the start and type derived for each period are those of ISO/IEC 23009-1 clause 5.3.2.1, and the duration is the explicit one or the time from the period's start to the next period's start or the presentation end. When the rules give no value an error is returned, never an invented value; in particular the last period of a dynamic presentation with no known end has no duration, and a period the rules leave unclassified in a static presentation may be reported regular or as an error.",
 ["inputs","configurations"],"all presence patterns and all values of start, duration, presentation duration, type and update period over up to four periods",
 "Tests tabulate a few period lists; the rules quantify over every presence pattern and position.",
 ["mpd/period.go","mpd/mpd.go"],[("Period.GetStart, GetDuration, GetType, AbsoluteStart, GetIndex","mpd/period.go")])
p("T02","Parent links always describe the actual tree",
 "After an MPD is read, built with the Append operations, cloned, or has its parents set, every period, adaptation set, representation and sub-representation reports as its parent exactly the object that contains it, and the index of a period is its position in its MPD. An object with no container reports none and operations that need one give an error.",
 ["histories","inputs"],"every tree shape up to the stated widths, every order of building operations, every way of obtaining the tree",
 "Tests check one document and one clone; stale or missing links appear only for particular shapes and operation orders.",
 ["mpd/parents.go","mpd/mpd.go","mpd/period.go","mpd/io.go"],[("SetParents, Append*","mpd/parents.go"),("MPDFromBytes, ReadFromString, Clone","mpd/io.go, mpd/mpd.go, mpd/period.go")])
p("T03","A clone is equal to and independent of its original",
 "Cloning an MPD or a period gives a tree that is equal in content to the original, also when written as XML, with parent links inside the clone. No later change to either tree is visible in the other.",
 ["inputs","histories"],"every field of the model, with any value, changed on either side after cloning",
 "Tests clone one MPD and compare a few fields; sharing is per field and per pointer depth.",
 ["mpd/mpd.go","mpd/period.go"],[("MPD.Clone","mpd/mpd.go"),("Period.Clone","mpd/period.go")])
p("T04","Effective representation values inherit from the nearest level",
 "The effective MIME type, codecs and content protection of a representation are its own when set and otherwise those of its adaptation set, and its effective segment template is its own when it has one and otherwise its adaptation set's. Initialization and media names are that template's with every $RepresentationID$ and $Bandwidth$ replaced by the representation's values, once, the values themselves being taken literally and everything else left as it is. Missing templates or parents give an error or empty value, never a panic.",
 ["inputs","configurations"],"all presence patterns over the hierarchy levels and all identifier and template strings up to the stated lengths",
 "Tests exercise one or two trees; precedence is quantified over every presence pattern and substitution over every template string.",
 ["mpd/mpd.go"],[("GetMimeType, GetCodecs, GetContentProtections, GetSegmentTemplate, GetInit, GetMedia","mpd/mpd.go")])
p("T05","Model helpers keep the values they are given",
 "Byte ranges set for an initialization and index are the contiguous ranges of the given sizes, a profile added is listed exactly once after those already there, and a timescale set reads back unchanged with the default one left out. Audio helper constructors record exactly the numbers they are given.",
 ["inputs","histories"],"all 32-bit sizes, timescales and rates, all profile lists up to the stated length",
 "Tests use single values; boundary sizes, defaults and repeated additions are not sampled.",
 ["mpd/mpd.go"],[("SetSegmentBase, AddProfile, SetTimescale, GetTimescale","mpd/mpd.go")])
p("M01","Every modelled field survives write and read",
 "For every attribute and element the MPD model can hold, writing a document in which it has any legal value and reading the result gives a model with the same value (nil and empty lists and texts being the same, and white space around child elements of an event not being its text), and nothing else is added, lost or moved. Writing the read model again gives identical bytes; for an event message, whose SCTE 35 elements keep namespace declarations as attributes, it gives an equal document and identical bytes from then on. A document whose root binds its namespace to a prefix is written with its elements in the same namespaces.",
 ["inputs"],"every field of every type reachable from an MPD, with all values within the stated bounds, with and without indentation and header",
 "The tests round-trip sample files, which use a fraction of the fields and each with one value.",
 ["mpd/mpd.go","mpd/scte35.go","mpd/scte214.go","mpd/up.go","xml/marshal.go","xml/read.go","xml/typeinfo.go"],
 [("struct tags of the model types","mpd/mpd.go"),("marshalValue, marshalAttr","xml/marshal.go"),("unmarshal, unmarshalAttr, copyValue","xml/read.go")])
p("M02","Names and namespaces on the wire are the DASH schema's",
 "Every attribute and element of the model is read from and written with exactly the name, kind (attribute, element, text) and namespace that the DASH, SCTE 35, SCTE 214, XLink and content-protection schemas give it. Optional values that are absent are not written. The order of differently named child elements is not claimed.",
 ["inputs","configurations"],"every field of every type reachable from an MPD against an independent vocabulary table",
 "Sample files cover a subset of the vocabulary; a wrong or shadowed name on an uncommon field changes no test.",
 ["mpd/mpd.go","mpd/scte35.go","mpd/scte214.go","mpd/up.go","xml/typeinfo.go"],[("struct tags of the model types","mpd/mpd.go"),("getTypeInfo, structFieldInfo, lookupXMLName","xml/typeinfo.go")])
p("M03","Numbers out of range or malformed are errors, never wrapped",
 "When an attribute or element holds a number or boolean, the value read is exactly the one its text denotes, and text that is malformed or outside the field's type gives an error instead of a truncated, wrapped or default value; white space around the text is ignored, an empty text is zero, and what Go takes for a number beyond XML Schema may be refused or read as the number it denotes. INF is accepted and written for the fields that allow it.",
 ["inputs"],"every text up to the stated lengths for every numeric field type",
 "Tests read a few in-range numbers; the width boundary differs by field type.",
 ["xml/read.go","mpd/mpd.go"],[("copyValue","xml/read.go"),("FloatInf64.UnmarshalXMLAttr, MarshalXMLAttr","mpd/mpd.go")])
p("M04","Unknown content never disturbs known content",
 "Elements with local names, and attributes with names, that the model does not know at their place, and comments, processing instructions and whitespace between elements, may occur anywhere in a document without any effect on what is read for the known ones. Order of attributes does not matter.",
 ["inputs"],"unknown content of any name and nesting up to the stated bounds at any position",
 "Tests read whole sample files; interaction of unknown content with a particular known field is not sampled.",
 ["xml/read.go","xml/xml.go"],[("unmarshal, unmarshalPath, Skip","xml/read.go")])
p("M05","SCTE-35 and SCTE-214 signalling is carried faithfully",
 "SCTE 35 events, in XML or binary form and in either supported namespace, are recognised as such and carried from read to write with every field, in the namespace they came in. The constructors for SCTE 35 and SCTE 214 elements give them the name, namespace and values they should have; other schemes and namespaces are never taken for those of SCTE.",
 ["inputs"],"all field values and scheme strings within the stated bounds",
 "Tests check a handful of sample payloads.",
 ["mpd/scte35.go","mpd/scte214.go"],[("SpliceInfo types, IsSCTE35","mpd/scte35.go"),("SCTE-214 helpers","mpd/scte214.go")])
p("X01","Any text written as attribute or content reads back unchanged",
 "Whatever string is stored in an attribute or in element text, the written document is well-formed, contains no markup the string injected, and reads back as the same string, with characters XML cannot carry replaced by the replacement character. Escaping standalone text behaves the same way.",
 ["inputs"],"every byte string up to the stated length, in attribute, text and escape-function positions",
 "Tests escape a few strings; the property is over every byte sequence including invalid UTF-8 and control characters.",
 ["xml/xml.go","xml/marshal.go"],[("EscapeText, EscapeString","xml/xml.go"),("text, attrval decoding","xml/xml.go")])
p("X02","Decoding arbitrary bytes terminates, without panic, always advancing",
 "For every byte sequence, reading tokens ends with end-of-file or an error after finitely many tokens and without panic, every token consumes input, and once an error is returned it is returned forever. In strict mode, which reading an MPD uses, every start element is closed by its own end element in nesting order before end-of-file is reported.",
 ["inputs"],"every byte string up to the stated length, and every suffix after chosen markup prefixes",
 "Tests decode well-formed samples and a list of broken ones; hostile input is unbounded in variety.",
 ["xml/xml.go"],[("Decoder.Token, rawToken, text, attrval","xml/xml.go"),("pushElement, popElement","xml/xml.go")],
 state=[("element stack","open elements and the namespace bindings they hide","xml/xml.go")])
p("X03","Decoded tokens are those of the XML specification",
 "For every well-formed input the decoder returns the tokens, names, attribute values and character data that XML 1.0 gives it, with entities and character references replaced and line ends normalised, and in strict mode inputs with malformed tags, attributes, references, names or characters are rejected. Tolerated as by encoding/xml: missing white space between attributes, repeated attributes, anything about document-level structure, and the insides of markup declarations. The raw text of an element captured as inner XML is exactly the bytes between its tags.",
 ["inputs"],"every byte string up to the stated length and templates of markup with symbolic content, compared with an independent reference",
 "Tests compare a fixed list of documents.",
 ["xml/xml.go","xml/read.go"],[("rawToken, text, name, nsname","xml/xml.go"),("innerxml capture","xml/read.go")])
p("X04","Names resolve by XML namespace scoping",
 "A prefixed name decodes to the namespace bound to that prefix by the innermost enclosing declaration, an unprefixed element to the innermost default namespace and an unprefixed attribute to none. Bindings end with the element that made them.",
 ["inputs","histories"],"every arrangement of declarations and uses over up to three nested levels with symbolic prefixes and namespaces",
 "Tests have two or three scoping examples; shadowing and restoring depend on the history of opened elements.",
 ["xml/xml.go"],[("Decoder.translate, pushNs, popElement","xml/xml.go")])
p("X05","Encoded tokens decode to the names that were encoded",
 "Any properly nested sequence of start elements, end elements, attributes and text given to the encoder, with any namespaces, is written as a document in which every element and attribute has the namespace and local name it was given; an element given no namespace may take its parent's default one. Improperly nested or invalid tokens are refused with an error.",
 ["inputs","histories"],"every token tree up to the stated depth with symbolic namespaces, prefixes and names",
 "Tests encode fixed sequences; namespace declarations interact across levels.",
 ["xml/marshal.go"],[("Encoder.EncodeToken, printer.writeStart, writeEnd, createAttrPrefix","xml/marshal.go")])
p("X06","Comments, directives and instructions cannot corrupt the document",
 "A comment, directive or processing instruction that is accepted for writing reads back as the same token and nothing else, white space between an instruction's target and its content and comments inside a directive aside; one whose content would end early or break the document is refused with an error.",
 ["inputs"],"every content string up to the stated length",
 "Tests try a few contents.",
 ["xml/marshal.go","xml/xml.go"],[("Encoder.EncodeToken, isValidDirective, emitComment","xml/marshal.go")])
p("X07","Reported input positions are exact",
 "At every point of reading, the reported input offset is the number of bytes consumed so far and the reported line and column are those of that offset, also after tokens with multi-byte characters, line breaks and pushed-back bytes. Errors carry the line they occurred on.",
 ["inputs"],"every byte string up to the stated length",
 "Tests check positions in one document.",
 ["xml/xml.go"],[("InputOffset, InputPos, getc, ungetc","xml/xml.go")])
p("X08","Write failures surface and counts are exact",
 "When the destination fails after any number of bytes, writing a document returns an error, and the bytes delivered are a prefix of the complete output; when it does not fail the returned count is the number of bytes delivered and the output is complete.",
 ["fault_sequences","inputs"],"failure at every byte position and in every write call, short writes included",
 "No test makes the destination fail.",
 ["mpd/io.go","xml/marshal.go"],[("WriteXML, countingWriter","mpd/io.go"),("cachedWriteError, Flush, Encode","xml/marshal.go")])
p("X09","What is read or written does not depend on earlier operations",
 "Reading a document and writing a model give results that depend only on their arguments: not on documents read or written before, on operations that failed before, on names already seen, or on pooled and cached state being reused.",
 ["histories"],"every pair of successive operations from the stated set, the first possibly failing, with symbolic content",
 "Tests run operations in a fixed order, mostly once.",
 ["xml/marshal.go","xml/xml.go","xml/typeinfo.go","mpd/io.go"],[("AcquireEncoder, ReleaseEncoder","xml/marshal.go"),("name interning","xml/xml.go"),("type info cache","xml/typeinfo.go")])
p("X10","Shared state is only touched under synchronisation",
 "Reading, writing and cloning of separate documents may be done from any number of goroutines at once, and so may writing and cloning of the same document: no operation writes memory that another such operation can reach except under a lock, by an atomic operation or while it alone holds it from a pool.",
 ["schedules"],"every pair of concurrent operations on separate documents, reduced to an ownership discipline checked on every explored path",
 "Tests run operations one at a time; races need particular schedules.",
 ["xml/typeinfo.go","xml/xml.go","xml/marshal.go"],[("sync.Map type cache","xml/typeinfo.go"),("encoder and buffer pools, intern lock","xml/marshal.go, xml/xml.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
