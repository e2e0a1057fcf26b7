package props

// schema is the vocabulary of the DASH schema and the schemas it uses, as far
// as the model has it: an independent statement of what every attribute and
// element of the model is called on the wire. It is not derived from /repo when
// a check runs. Each line is one of
//
//	@ Field name value[?|!]  an attribute: ? optional, written when not nil;
//	                         ! always written; otherwise written unless zero
//	< Field name type[*|?|]  elements: * a list, ? optional, otherwise text
//	                         that is written unless empty
//	. Field                  the text of the element
//	+ Field                  any other attributes
//	# Field                  the content of the element, verbatim
//	^ Field [?]              the lines of another type; ? behind a pointer
//
// A name without a prefix is an attribute without a namespace, or an element in
// the namespace of its parent.
//
// The second column is the field that has elements of the type, and the third
// tells whether they say themselves in which namespace they are.
var schema = []struct {
	name, home string
	free       bool
	lines      string
}{
	{"MPD", "", false, `
@ SchemaLocation xsi:schemaLocation str
@ Id id str
@ Profiles profiles str!
@ Type type str?
@ AvailabilityStartTime availabilityStartTime str
@ AvailabilityEndTime availabilityEndTime str
@ PublishTime publishTime str
@ MediaPresentationDuration mediaPresentationDuration dur?
@ MinimumUpdatePeriod minimumUpdatePeriod dur?
@ MinBufferTime minBufferTime dur?
@ TimeShiftBufferDepth timeShiftBufferDepth dur?
@ SuggestedPresentationDelay suggestedPresentationDelay dur?
@ MaxSegmentDuration maxSegmentDuration dur?
@ MaxSubsegmentDuration maxSubsegmentDuration dur?
< ProgramInformation ProgramInformation ProgramInformationType*
< BaseURL BaseURL BaseURLType*
< Location Location LocationType*
< PatchLocation PatchLocation PatchLocationType*
< RequestParam RequestParam ExtendedUrlInfoType*
< ServiceDescription ServiceDescription ServiceDescriptionType*
< InitializationSet InitializationSet InitializationSetType*
< InitializationGroup InitializationGroup UIntVWithIDType*
< InitializationPresentation InitializationPresentation UIntVWithIDType*
< ContentProtection ContentProtection ContentProtectionType*
< Periods Period Period*
< Metrics Metrics MetricsType*
< EssentialProperties EssentialProperty DescriptorType*
< SupplementalProperties SupplementalProperty DescriptorType*
< UTCTimings UTCTiming DescriptorType*
< LeapSecondInformation LeapSecondInformation LeapSecondInformationType?
< ContentSteering ContentSteering ContentSteeringType?
`},
	{"ProgramInformationType", "MPD.ProgramInformation", false, `
@ Lang lang str
@ MoreInformationURL moreInformationURL str
< Title Title str
< Source Source str
< Copyright Copyright str
`},
	{"BaseURLType", "MPD.BaseURL", false, `
@ ServiceLocation serviceLocation str
@ ByteRange byteRange str
@ AvailabilityTimeOffset availabilityTimeOffset inf
@ AvailabilityTimeComplete availabilityTimeComplete bool?
@ TimeShiftBufferDepth timeShiftBufferDepth dur?
@ RangeAccess rangeAccess bool
. Value
`},
	{"LocationType", "MPD.Location", false, `
@ ServiceLocation serviceLocation str
. Value
`},
	{"PatchLocationType", "MPD.PatchLocation", false, `
@ ServiceLocation serviceLocation str
@ Ttl ttl f64
. Value
`},
	{"ExtendedUrlInfoType", "MPD.RequestParam", false, `
^ UrlQueryInfoType
@ IncludeInRequests includeInRequests str
@ HeaderParamSource headerParamSource str
@ SameOriginPolicy sameOriginPolicy bool
@ Header header str
`},
	{"UrlQueryInfoType", "ContentProtectionType.UrlQueryInfo", false, `
@ QueryTemplate queryTemplate str
@ UseMPDUrlQuery useMPDUrlQuery bool
@ QueryString queryString str
@ XlinkHref xlink:href str
@ XlinkActuate xlink:actuate str
@ XlinkType xlink:type str
@ XlinkShow xlink:show str
`},
	{"ServiceDescriptionType", "MPD.ServiceDescription", false, `
@ Id id u32!
< Scopes Scope DescriptorType*
< Latencies Latency LatencyType*
< PlaybackRates PlaybackRate PlaybackRateType*
< OperatingQualities OperatingQuality OperatingQualityType*
< OperatingBandwidths OperatingBandwidth OperatingBandwidthType*
< ContentSteerings ContentSteering ContentSteeringType*
< ClientDataReporting ClientDataReporting ClientDataReportingType*
< PlaybackRestrictions PlaybackRestrictions PlaybackRestrictionsType*
`},
	{"DescriptorType", "MPD.EssentialProperties", false, `
@ SchemeIdUri schemeIdUri str
@ Value value str
@ Id id str
< UrlQueryInfo up14:UrlQueryInfo UrlQueryInfoType?
< ExtUrlQueryInfo up16:ExtUrlQueryInfo ExtendedUrlInfoType?
< SCTE214ContentIdentifiers scte214:ContentIdentifier SCTE214ContentIdentifierType*
`},
	{"SCTE214ContentIdentifierType", "ContentProtectionType.SCTE214ContentIdentifiers", false, `
@ Type type str!
@ Value value str!
+ AnyAttrs
`},
	{"LatencyType", "ServiceDescriptionType.Latencies", false, `
@ ReferenceId referenceId u32!
@ Target target u32?
@ Max max u32?
@ Min min u32?
< QualityLatencies QualityLatency UIntPairsWithIDType*
`},
	{"UIntPairsWithIDType", "LatencyType.QualityLatencies", false, `
@ Type type str
. UIntVectorType
`},
	{"PlaybackRateType", "ServiceDescriptionType.PlaybackRates", false, `
@ Max max f64
@ Min min f64
`},
	{"OperatingQualityType", "ServiceDescriptionType.OperatingQualities", false, `
@ MediaType mediaType str
@ Min min u32
@ Max max u32
@ Target target u32
@ Type type str
@ MaxDifference maxDifference u32
`},
	{"OperatingBandwidthType", "ServiceDescriptionType.OperatingBandwidths", false, `
@ MediaType mediaType str
@ Min min u32
@ Max max u32
@ Target target u32
`},
	{"ContentSteeringType", "MPD.ContentSteering", false, `
@ DefaultServiceLocation defaultServiceLocation str
@ QueryBeforeStart queryBeforeStart bool
@ ClientRequirement clientRequirement bool
. Value
`},
	{"ClientDataReportingType", "ServiceDescriptionType.ClientDataReporting", false, `
@ SchemeIdUri schemeIdUri str!
@ ServiceLocations serviceLocations str?
@ AdaptationSets adaptationSets str?
< CMCDParameters CMCDParameters CMCDParameterType*
`},
	{"CMCDParameterType", "ClientDataReportingType.CMCDParameters", false, `
@ Version version u32
@ Mode mode str
@ IncludeInRequests includeInRequests list?
@ Keys keys list?
@ ContentID contentID str
@ SessionID sessionID str
`},
	{"PlaybackRestrictionsType", "ServiceDescriptionType.PlaybackRestrictions", false, `
@ SkipAfter skipAfter dur
`},
	{"InitializationSetType", "MPD.InitializationSet", false, `
@ XlinkHref xlink:href str
@ XlinkActuate xlink:actuate str
@ XlinkType xlink:type str
@ Id id u32!
@ InAllPeriods inAllPeriods bool?
@ ContentType contentType str
@ Par par str
@ MaxWidth maxWidth u32
@ MaxHeight maxHeight u32
@ MaxFrameRate maxFrameRate str
@ Initialization initialization str
< Accessibilities Accessibility DescriptorType*
< Roles Role DescriptorType*
< Ratings Rating DescriptorType*
< Viewpoints Viewpoint DescriptorType*
^ RepresentationBaseType
`},
	{"RepresentationBaseType", "-", false, `
@ Profiles profiles str
@ Width width u32
@ Height height u32
@ Sar sar str
@ FrameRate frameRate str
@ AudioSamplingRate audioSamplingRate str?
@ MimeType mimeType str
@ SegmentProfiles segmentProfiles str?
@ Codecs codecs str
@ ContainerProfiles containerProfiles str?
@ MaximumSAPPeriod maximumSAPPeriod f64
@ StartWithSAP startWithSAP u32
@ MaxPlayoutRate maxPlayoutRate f64
@ CodingDependency codingDependency bool?
@ ScanType scanType str
@ SelectionPriority selectionPriority u32?
@ Tag tag str
@ SCTE214SupplementalProfiles scte214:supplementalProfiles str
@ SCTE214SupplementalCodecs scte214:supplementalCodecs str
< FramePackings FramePacking DescriptorType*
< AudioChannelConfigurations AudioChannelConfiguration DescriptorType*
< ContentProtections ContentProtection ContentProtectionType*
< OutputProtection OutputProtection DescriptorType?
< EssentialProperties EssentialProperty DescriptorType*
< SupplementalProperties SupplementalProperty DescriptorType*
< InbandEventStreams InbandEventStream EventStreamType*
< Switchings Switching SwitchingType*
< RandomAccesses RandomAccess RandomAccessType*
< GroupLabels GroupLabel LabelType*
< Labels Label LabelType*
< ProducerReferenceTimes ProducerReferenceTime ProducerReferenceTimeType*
< ContentPopularityRates ContentPopularityRate ContentPopularityRateType*
< Resyncs Resync ResyncType*
< SegmentSequenceProperties SegmentSequenceProperties SegmentSequencePropertiesType*
`},
	{"ContentProtectionType", "MPD.ContentProtection", false, `
@ Robustness robustness str
@ RefId refId str
@ Ref ref str
@ DefaultKID cenc:default_KID str
< Pssh cenc:pssh PsshType?
< MSPro mspr:pro MSProType?
< LaURL dashif:Laurl LaURLType?
< AuthzURL dashif:Authzurl AuthzURLType?
< Certurls dashif:Certurl CerturlType*
< MarlinContentIds mas:MarlinContentIds MarlinContentIds?
^ DescriptorType
`},
	{"PsshType", "ContentProtectionType.Pssh", false, `
. Value
`},
	{"MSProType", "ContentProtectionType.MSPro", false, `
. Value
`},
	{"LaURLType", "ContentProtectionType.LaURL", false, `
@ LicenseType licenseType str
. Value
`},
	{"AuthzURLType", "ContentProtectionType.AuthzURL", false, `
@ AuthzType authzType str
. Value
`},
	{"CerturlType", "ContentProtectionType.Certurls", false, `
@ CertType certType str
. Value
`},
	{"MarlinContentIds", "ContentProtectionType.MarlinContentIds", false, `
< Cids mas:MarlinContentId MarlinContentId*
`},
	{"MarlinContentId", "MarlinContentIds.Cids", false, `
. Value
`},
	{"EventStreamType", "InitializationSetType.InbandEventStreams", false, `
@ XlinkHref xlink:href str
@ XlinkActuate xlink:actuate str
@ XlinkType xlink:type str
@ XlinkShow xlink:show str
@ SchemeIdUri schemeIdUri str!
@ Value value str
@ Timescale timescale u32?
@ PresentationTimeOffset presentationTimeOffset u64
< Events Event EventType*
< BaseURLs BaseURL BaseURLType*
< RequestParam RequestParam ExtendedUrlInfoType*
< EssentialProperty EssentialProperty DescriptorType*
< SupplementalProperty SupplementalProperty DescriptorType*
`},
	{"EventType", "EventStreamType.Events", false, `
@ PresentationTime presentationTime u64!
@ Duration duration u64
@ Id id u64?
@ Status status str
@ ContentEncoding contentEncoding str
@ MessageData messageData str
. Value
< SelectionInfo SelectionInfo SelectionInfoType?
< ServiceDescription ServiceDescription ServiceDescriptionType?
< InsertPresentation InsertPresentation AlternativeMPDEventType?
< ReplacePresentation ReplacePresentation AlternativeMPDReplaceEventType?
< SupplementalProperty SupplementalProperty DescriptorType*
< EssentialProperty EssentialProperty DescriptorType*
< Signal Signal SignalType?
< SpliceInfoSection SpliceInfoSection SpliceInfoSectionType?
`},
	{"SelectionInfoType", "EventType.SelectionInfo", false, `
@ SelectionInfo selectionInfo str
@ ContactURL contactURL str!
< Selection Selection SelectionType*
`},
	{"SelectionType", "SelectionInfoType.Selection", false, `
@ DataEncoding dataEncoding str
@ Parameter parameter str!
@ Data data str
`},
	{"AlternativeMPDEventType", "EventType.InsertPresentation", false, `
@ Uri uri str!
@ EarliestResolutionTimeOffset earliestResolutionTimeOffset inf
@ MaxDuration maxDuration u64
@ ExecuteOnce executeOnce bool
@ NoJump noJump i32
@ SkipAfter skipAfter dur
< SupplementalProperty SupplementalProperty DescriptorType*
`},
	{"AlternativeMPDReplaceEventType", "EventType.ReplacePresentation", false, `
@ ReturnOffset returnOffset u64
@ Clip clip bool?
@ StartWithOffset startWithOffset bool
^ AlternativeMPDEventType ?
`},
	{"SignalType", "EventType.Signal", true, `
< SpliceInfoSection SpliceInfoSection SpliceInfoSectionType?
< Binary Binary BinaryType?
`},
	{"SpliceInfoSectionType", "EventType.SpliceInfoSection", true, `
@ SapType sapType u8?
@ PreRollMilliSeconds preRollMilliSeconds u32
@ PtsAdjustment ptsAdjustment u64
@ ProtocolVersion protocolVersion u8?
@ Tier tier u16?
+ AnyAttrs
< Ext Ext ExtType?
< EncryptedPacket EncryptedPacket EncryptedPacketType?
< SpliceNull SpliceNull SpliceNullType?
< SpliceSchedule SpliceSchedule SpliceScheduleType?
< SpliceInsert SpliceInsert SpliceInsertType?
< TimeSignal TimeSignal TimeSignalType?
< BandwidthReservation BandwidthReservation BandwidthReservationType?
< PrivateCommand PrivateCommand PrivateCommandType?
< AvailDescriptors AvailDescriptor AvailDescriptorType*
< DTMFDescriptors DTMFDescriptor DTMFDescriptorType*
< SegmentationDescriptors SegmentationDescriptor SegmentationDescriptorType*
< TimeDescriptors TimeDescriptor TimeDescriptorType*
< AudioDescriptors AudioDescriptor AudioDescriptorType*
< PrivateDescriptors PrivateDescriptor PrivateDescriptorType*
`},
	{"ExtType", "SpliceInfoSectionType.Ext", true, `
+ AnyAttrs
# InnerXML
`},
	{"EncryptedPacketType", "SpliceInfoSectionType.EncryptedPacket", true, `
@ EncryptionAlgorithm encryptionAlgorithm u8!
@ CwIndex cwIndex u8!
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"SpliceNullType", "SpliceInfoSectionType.SpliceNull", true, `
< Ext Ext ExtType?
`},
	{"SpliceScheduleType", "SpliceInfoSectionType.SpliceSchedule", true, `
< Ext Ext ExtType?
< Events Event SpliceScheduleEventType*
`},
	{"SpliceScheduleEventType", "SpliceScheduleType.Events", true, `
@ SpliceEventId spliceEventId u32?
@ EventIdComplianceFlag eventIdComplianceFlag bool?
@ SpliceEventCancelIndicator spliceEventCancelIndicator bool?
@ OutOfNetworkIndicator outOfNetworkIndicator bool?
@ UniqueProgramId uniqueProgramId u16?
@ AvailNum availNum u8?
@ AvailsExpected availsExpected u8?
+ AnyAttrs
< Ext Ext ExtType?
< Program Program SpliceScheduleProgramType?
< Components Component SpliceScheduleComponentType*
< BreakDuration BreakDuration BreakDurationType?
`},
	{"SpliceScheduleProgramType", "SpliceScheduleEventType.Program", true, `
@ UtcSpliceTime utcSpliceTime str!
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"SpliceScheduleComponentType", "SpliceScheduleEventType.Components", true, `
@ ComponentTag componentTag u8!
@ UtcSpliceTime utcSpliceTime str!
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"BreakDurationType", "SpliceInsertType.BreakDuration", true, `
@ AutoReturn autoReturn bool!
@ Duration duration u64!
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"SpliceInsertType", "SpliceInfoSectionType.SpliceInsert", true, `
@ SpliceEventId spliceEventId u32?
@ SpliceEventCancelIndicator spliceEventCancelIndicator bool?
@ OutOfNetworkIndicator outOfNetworkIndicator bool?
@ SpliceImmediateFlag spliceImmediateFlag bool?
@ EventIdComplianceFlag eventIdComplianceFlag bool?
@ UniqueProgramId uniqueProgramId u16?
@ AvailNum availNum u8?
@ AvailsExpected availsExpected u8?
< Ext Ext ExtType?
< Program Program SpliceInsertProgramType?
< Components Component SpliceInsertComponentType*
< BreakDuration BreakDuration BreakDurationType?
`},
	{"SpliceInsertProgramType", "SpliceInsertType.Program", true, `
+ AnyAttrs
< Ext Ext ExtType?
< SpliceTime SpliceTime SpliceTimeType?
`},
	{"SpliceTimeType", "TimeSignalType.SpliceTime", true, `
@ PtsTime ptsTime u64?
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"SpliceInsertComponentType", "SpliceInsertType.Components", true, `
@ ComponentTag componentTag u8!
+ AnyAttrs
< Ext Ext ExtType?
< SpliceTime SpliceTime SpliceTimeType?
`},
	{"TimeSignalType", "SpliceInfoSectionType.TimeSignal", true, `
< Ext Ext ExtType?
< SpliceTime SpliceTime SpliceTimeType?
`},
	{"BandwidthReservationType", "SpliceInfoSectionType.BandwidthReservation", true, `
< Ext Ext ExtType?
`},
	{"PrivateCommandType", "SpliceInfoSectionType.PrivateCommand", true, `
@ Identifier identifier u32!
< Ext Ext ExtType?
< PrivateBytes PrivateBytes str
`},
	{"AvailDescriptorType", "SpliceInfoSectionType.AvailDescriptors", true, `
@ ProviderAvailId providerAvailId u32!
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"DTMFDescriptorType", "SpliceInfoSectionType.DTMFDescriptors", true, `
@ Preroll preroll u8?
@ Chars chars str
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"SegmentationDescriptorType", "SpliceInfoSectionType.SegmentationDescriptors", true, `
@ SegmentationEventId segmentationEventId u32?
@ SegmentationEventCancelIndicator segmentationEventCancelIndicator bool?
@ SegmentationEventIdComplianceIndicator segmentationEventIdComplianceIndicator bool?
@ SegmentationDuration segmentationDuration u64?
@ SegmentationTypeId segmentationTypeId u8?
@ SegmentNum segmentNum u8?
@ SegmentsExpected segmentsExpected u8?
@ SubSegmentNum subSegmentNum u8?
@ SubSegmentsExpected subSegmentsExpected u8?
+ AnyAttrs
< Ext Ext ExtType?
< DeliveryRestrictions DeliveryRestrictions DeliveryRestrictionsType?
< SegmentationUpids SegmentationUpid SegmentationUpidType*
< Components Component SegmentationDescriptorComponentType*
`},
	{"DeliveryRestrictionsType", "SegmentationDescriptorType.DeliveryRestrictions", true, `
@ WebDeliveryAllowedFlag webDeliveryAllowedFlag bool!
@ NoRegionalBlackoutFlag noRegionalBlackoutFlag bool!
@ ArchiveAllowedFlag archiveAllowedFlag bool!
@ DeviceRestrictions deviceRestrictions u8!
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"SegmentationUpidType", "SegmentationDescriptorType.SegmentationUpids", true, `
@ SegmentationUpidType segmentationUpidType u8?
@ FormatIdentifier formatIdentifier u32?
@ SegmentationUpidFormat segmentationUpidFormat str
+ AnyAttrs
. Value
`},
	{"SegmentationDescriptorComponentType", "SegmentationDescriptorType.Components", true, `
@ ComponentTag componentTag u8!
@ PtsOffset ptsOffset u64!
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"TimeDescriptorType", "SpliceInfoSectionType.TimeDescriptors", true, `
@ TaiSeconds taiSeconds u64?
@ TaiNs taiNs u32?
@ UtcOffset utcOffset u16?
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"AudioDescriptorType", "SpliceInfoSectionType.AudioDescriptors", true, `
+ AnyAttrs
< Ext Ext ExtType?
< AudioChannels AudioChannel AudioChannelType*
`},
	{"AudioChannelType", "AudioDescriptorType.AudioChannels", true, `
@ ISOCode ISOCode str!
@ BitStreamMode BitStreamMode u8!
@ NumChannels NumChannels u8!
@ FullSrvcAudio FullSrvcAudio u8!
@ ComponentTag componentTag u8?
+ AnyAttrs
< Ext Ext ExtType?
`},
	{"PrivateDescriptorType", "SpliceInfoSectionType.PrivateDescriptors", true, `
@ DescriptorTag descriptorTag u8!
@ Identifier identifier u32!
+ AnyAttrs
< Ext Ext ExtType?
< PrivateBytes PrivateBytes str
`},
	{"BinaryType", "SignalType.Binary", true, `
@ SignalType signalType str
. Value
`},
	{"SwitchingType", "InitializationSetType.Switchings", false, `
@ Interval interval u32!
@ Type type str
`},
	{"RandomAccessType", "InitializationSetType.RandomAccesses", false, `
@ Interval interval u32!
@ Type type str
@ MinBufferTime minBufferTime dur?
@ Bandwidth bandwidth u32
`},
	{"LabelType", "InitializationSetType.GroupLabels", false, `
@ Id id u32
@ Lang lang str
. Value
`},
	{"ProducerReferenceTimeType", "InitializationSetType.ProducerReferenceTimes", false, `
@ Id id u32!
@ Inband inband bool
@ Type type str
@ ApplicationScheme applicationScheme str
@ WallClockTime wallClockTime str!
@ PresentationTime presentationTime u64!
< UTCTiming UTCTiming DescriptorType?
`},
	{"ContentPopularityRateType", "InitializationSetType.ContentPopularityRates", false, `
@ Source source str!
@ Sourcedescription source_description str
< PR PR PR*
`},
	{"PR", "ContentPopularityRateType.PR", false, `
@ PopularityRate popularityRate u32!
@ Start start u64?
@ R r int
`},
	{"ResyncType", "InitializationSetType.Resyncs", false, `
@ Type type u32!
@ DT dT u32?
@ DImax dImax f32?
@ DImin dImin f32!
@ Marker marker bool!
`},
	{"SegmentSequencePropertiesType", "InitializationSetType.SegmentSequenceProperties", false, `
@ SapType sapType u32!
@ Cadence cadence u32
@ Event event bool
@ Alignment alignment str
`},
	{"UIntVWithIDType", "MPD.InitializationGroup", false, `
@ Id id u32!
@ Profiles profiles str
@ ContentType contentType str
. UIntVectorType
`},
	{"Period", "MPD.Periods", false, `
@ XlinkHref xlink:href str
@ XlinkActuate xlink:actuate str
@ XlinkType xlink:type str
@ XlinkShow xlink:show str
@ Id id str
@ Start start dur?
@ Duration duration dur?
@ BitstreamSwitching bitstreamSwitching bool?
@ MinBufferTime minBufferTime dur?
< ImportedMPDs ImportedMPD ImportedMpdType*
< BaseURLs BaseURL BaseURLType*
< RequestParam RequestParam ExtendedUrlInfoType*
< SegmentBase SegmentBase SegmentBaseType?
< SegmentList SegmentList SegmentListType?
< SegmentTemplate SegmentTemplate SegmentTemplateType?
< AssetIdentifier AssetIdentifier DescriptorType?
< EventStreams EventStream EventStreamType*
< ServiceDescriptions ServiceDescription ServiceDescriptionType*
< ContentProtections ContentProtection ContentProtectionType*
< AdaptationSets AdaptationSet AdaptationSetType*
< Subsets Subset SubsetType*
< SupplementalProperties SupplementalProperty DescriptorType*
< EmptyAdaptationSets EmptyAdaptationSet AdaptationSetType*
< GroupLabels GroupLabel LabelType*
< Preselections Preselection PreselectionType*
`},
	{"ImportedMpdType", "Period.ImportedMPDs", false, `
@ EarliestResolutionTimeOffset earliestResolutionTimeOffset f64!
. Value
`},
	{"SegmentBaseType", "Period.SegmentBase", false, `
@ Timescale timescale u32?
@ EptDelta eptDelta int?
@ PdDelta pdDelta int?
@ PresentationTimeOffset presentationTimeOffset u64?
@ PresentationDuration presentationDuration u64?
@ TimeShiftBufferDepth timeShiftBufferDepth dur
@ IndexRange indexRange str
@ IndexRangeExact indexRangeExact bool
@ AvailabilityTimeOffset availabilityTimeOffset inf
@ AvailabilityTimeComplete availabilityTimeComplete bool?
< Initialization Initialization URLType?
< RepresentationIndex RepresentationIndex URLType?
< FailoverContent FailoverContent FailoverContentType?
`},
	{"URLType", "SegmentBaseType.Initialization", false, `
@ SourceURL sourceURL str
@ Range range str
`},
	{"FailoverContentType", "SegmentBaseType.FailoverContent", false, `
@ Valid valid bool?
< FCS FCS FCS*
`},
	{"FCS", "FailoverContentType.FCS", false, `
@ T t u64!
@ D d u64
`},
	{"SegmentListType", "Period.SegmentList", false, `
@ XlinkHref xlink:href str
@ XlinkActuate xlink:actuate str
@ XlinkType xlink:type str
@ XlinkShow xlink:show str
< SegmentURL SegmentURL SegmentURLType*
^ MultipleSegmentBaseType
`},
	{"SegmentURLType", "SegmentListType.SegmentURL", false, `
@ Media media str
@ MediaRange mediaRange str
@ Index index str
@ IndexRange indexRange str
`},
	{"MultipleSegmentBaseType", "-", false, `
@ Duration duration u32?
@ Tolerance tolerance f64?
@ StartNumber startNumber u32?
@ EndNumber endNumber u32?
@ EndSubNumber endSubNumber u64?
@ K k u64?
< SegmentTimeline SegmentTimeline SegmentTimelineType?
< BitstreamSwitching BitstreamSwitching URLType?
^ SegmentBaseType
`},
	{"SegmentTimelineType", "SegmentListType.SegmentTimeline", false, `
< Pattern Pattern PatternType*
< S S S*
`},
	{"PatternType", "SegmentTimelineType.Pattern", false, `
@ Id id u64!
< P P RunLengthType*
`},
	{"RunLengthType", "PatternType.P", false, `
@ D d u64!
@ R r u32
^ CommonSegmentSequenceAttributes
^ CommonSegmentSequenceDurationPatternAttributes
`},
	{"CommonSegmentSequenceAttributes", "-", false, `
@ K k u64?
`},
	{"CommonSegmentSequenceDurationPatternAttributes", "-", false, `
@ Ssp ssp u32?
`},
	{"S", "SegmentTimelineType.S", false, `
@ T t u64?
@ N n u64?
@ D d u64
@ R r int
^ CommonSegmentSequenceAttributes
^ CommonDurationPatternAttributes
^ CommonSegmentSequenceDurationPatternAttributes
`},
	{"CommonDurationPatternAttributes", "-", false, `
@ P p u32?
@ PE pE u32?
`},
	{"SegmentTemplateType", "Period.SegmentTemplate", false, `
@ Media media str
@ Index index str
@ Initialization initialization str
@ BitstreamSwitching bitstreamSwitching str
^ MultipleSegmentBaseType
`},
	{"AdaptationSetType", "Period.AdaptationSets", false, `
@ XlinkHref xlink:href str
@ XlinkActuate xlink:actuate str
@ XlinkType xlink:type str
@ XlinkShow xlink:show str
@ Id id u32?
@ Group group u32
@ Lang lang str
@ ContentType contentType str
@ Par par str
@ MinBandwidth minBandwidth u32
@ MaxBandwidth maxBandwidth u32
@ MinWidth minWidth u32
@ MaxWidth maxWidth u32
@ MinHeight minHeight u32
@ MaxHeight maxHeight u32
@ MinFrameRate minFrameRate str
@ MaxFrameRate maxFrameRate str
@ SegmentAlignment segmentAlignment bool
@ SubsegmentAlignment subsegmentAlignment bool
@ SubsegmentStartsWithSAP subsegmentStartsWithSAP u32
@ BitstreamSwitching bitstreamSwitching bool?
@ InitializationSetRef initializationSetRef str?
@ InitializationPrincipal initializationPrincipal str
^ RepresentationBaseType
< Accessibilities Accessibility DescriptorType*
< Roles Role DescriptorType*
< Ratings Rating DescriptorType*
< Viewpoints Viewpoint DescriptorType*
< ContentComponents ContentComponent ContentComponentType*
< BaseURLs BaseURL BaseURLType*
< RequestParam RequestParam ExtendedUrlInfoType*
< SegmentBase SegmentBase SegmentBaseType?
< SegmentList SegmentList SegmentListType?
< SegmentTemplate SegmentTemplate SegmentTemplateType?
< Representations Representation RepresentationType*
`},
	{"ContentComponentType", "AdaptationSetType.ContentComponents", false, `
@ Id id u32?
@ Lang lang str
@ ContentType contentType str
@ Par par str
@ Tag tag str
< Accessibilities Accessibility DescriptorType*
< Roles Role DescriptorType*
< Ratings Rating DescriptorType*
< Viewpoints Viewpoint DescriptorType*
`},
	{"RepresentationType", "AdaptationSetType.Representations", false, `
@ Id id str!
@ Bandwidth bandwidth u32!
@ QualityRanking qualityRanking u32?
@ DependencyId dependencyId str?
@ AssociationId associationId str?
@ AssociationType associationType str?
@ MediaStreamStructureId mediaStreamStructureId str?
^ RepresentationBaseType
< BaseURLs BaseURL BaseURLType*
< ExtendedBandwidths ExtendedBandwidth ExtendedBandwidthType*
< SubRepresentations SubRepresentation SubRepresentationType*
< RequestParam RequestParam ExtendedUrlInfoType*
< SegmentBase SegmentBase SegmentBaseType?
< SegmentList SegmentList SegmentListType?
< SegmentTemplate SegmentTemplate SegmentTemplateType?
`},
	{"ExtendedBandwidthType", "RepresentationType.ExtendedBandwidths", false, `
@ Vbr vbr bool
< ModelPairs ModelPair ModelPairType*
`},
	{"ModelPairType", "ExtendedBandwidthType.ModelPairs", false, `
@ BufferTime bufferTime dur?
@ Bandwidth bandwidth u32!
`},
	{"SubRepresentationType", "RepresentationType.SubRepresentations", false, `
@ Level level u32?
@ DependencyLevel dependencyLevel str?
@ Bandwidth bandwidth u32
@ ContentComponent contentComponent str?
^ RepresentationBaseType
`},
	{"SubsetType", "Period.Subsets", false, `
@ Contains contains str?
@ Id id str
`},
	{"PreselectionType", "Period.Preselections", false, `
@ Id id str
@ PreselectionComponents preselectionComponents str?
@ Lang lang str
@ Order order str
< Accessibilities Accessibility DescriptorType*
< Roles Role DescriptorType*
< Ratings Rating DescriptorType*
< Viewpoints Viewpoint DescriptorType*
^ RepresentationBaseType
`},
	{"MetricsType", "MPD.Metrics", false, `
@ Metrics metrics str!
< Ranges Range RangeType*
< Reportings Reporting DescriptorType*
`},
	{"RangeType", "MetricsType.Ranges", false, `
@ Starttime starttime dur?
@ Duration duration dur?
`},
	{"LeapSecondInformationType", "MPD.LeapSecondInformation", false, `
@ AvailabilityStartLeapOffset availabilityStartLeapOffset int!
@ NextAvailabilityStartLeapOffset nextAvailabilityStartLeapOffset int
@ NextLeapChangeTime nextLeapChangeTime str
`},
}

var nsOf = map[string]string{
	"xlink":   "http://www.w3.org/1999/xlink",
	"xsi":     "http://www.w3.org/2001/XMLSchema-instance",
	"scte214": "urn:scte:dash:scte214-extensions",
	"cenc":    "urn:mpeg:cenc:2013",
	"mspr":    "urn:microsoft:playready",
	"dashif":  "https://dashif.org/CPS",
	"mas":     "urn:marlin:mas:1-0:services:schemas:mpd",
	"up14":    "urn:mpeg:dash:schema:urlparam:2014",
	"up16":    "urn:mpeg:dash:schema:urlparam:2016",
}
