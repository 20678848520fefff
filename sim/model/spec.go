// Package model is an independent description of the calendar format: tables
// of components, properties, value types and parameters written from RFC 5545,
// RFC 6868, the alarm extensions and the package's exported types, a neutral
// tree, a conversion of calendars to trees, and a reference writer and reader
// of streams. It shares no code with the package under test.
package model

import "vimagination.zapto.org/ics"

// Value kinds, named as in RFC 5545.
const (
	Text     = "TEXT"
	MText    = "TEXT-LIST"
	DateTime = "DATE-TIME"
	Date     = "DATE"
	Duration = "DURATION"
	Period   = "PERIOD"
	Recur    = "RECUR"
	URI      = "URI"
	Addr     = "CAL-ADDRESS"
	Integer  = "INTEGER"
	Geo      = "FLOAT-PAIR"
	Offset   = "UTC-OFFSET"
	Boolean  = "BOOLEAN"
	Binary   = "BINARY"
	Enum     = "ENUM"
)

type propSpec struct {
	name string
	kind string            // default value kind
	alt  map[string]string // Go field of a value alternative -> kind
	enum map[uint64]string
}

var dateAlt = map[string]string{"DateTime": DateTime, "Date": Date}

// props is keyed by exported Go type name.
var props = map[string]propSpec{
	"PropAttachment":          {name: "ATTACH", kind: URI, alt: map[string]string{"URI": URI, "Binary": Binary}},
	"PropAttendee":            {name: "ATTENDEE", kind: Addr},
	"PropCategories":          {name: "CATEGORIES", kind: MText},
	"PropClass":               {name: "CLASS", kind: Enum, enum: map[uint64]string{uint64(ics.ClassPublic): "PUBLIC", uint64(ics.ClassPrivate): "PRIVATE", uint64(ics.ClassConfidential): "CONFIDENTIAL"}},
	"PropComment":             {name: "COMMENT", kind: Text},
	"PropCompleted":           {name: "COMPLETED", kind: DateTime},
	"PropContact":             {name: "CONTACT", kind: Text},
	"PropCreated":             {name: "CREATED", kind: DateTime},
	"PropDescription":         {name: "DESCRIPTION", kind: Text},
	"PropDateTimeEnd":         {name: "DTEND", kind: DateTime, alt: dateAlt},
	"PropDateTimeStamp":       {name: "DTSTAMP", kind: DateTime},
	"PropDateTimeStart":       {name: "DTSTART", kind: DateTime, alt: dateAlt},
	"PropDue":                 {name: "DUE", kind: DateTime, alt: dateAlt},
	"PropDuration":            {name: "DURATION", kind: Duration},
	"PropExceptionDateTime":   {name: "EXDATE", kind: DateTime, alt: dateAlt},
	"PropFreeBusy":            {name: "FREEBUSY", kind: Period},
	"PropGeo":                 {name: "GEO", kind: Geo},
	"PropLastModified":        {name: "LAST-MODIFIED", kind: DateTime},
	"PropLocation":            {name: "LOCATION", kind: Text},
	"PropOrganizer":           {name: "ORGANIZER", kind: Addr},
	"PropPercentComplete":     {name: "PERCENT-COMPLETE", kind: Integer},
	"PropPriority":            {name: "PRIORITY", kind: Integer},
	"PropProductID":           {name: "PRODID", kind: Text},
	"PropRecurrenceDateTimes": {name: "RDATE", kind: DateTime, alt: map[string]string{"DateTime": DateTime, "Date": Date, "Period": Period}},
	"PropRecurrenceID":        {name: "RECURRENCE-ID", kind: DateTime, alt: dateAlt},
	"PropRelatedTo":           {name: "RELATED-TO", kind: Text},
	"PropRepeat":              {name: "REPEAT", kind: Integer},
	"PropRequestStatus":       {name: "REQUEST-STATUS", kind: Text},
	"PropResources":           {name: "RESOURCES", kind: MText},
	"PropRecurrenceRule":      {name: "RRULE", kind: Recur},
	"PropSequence":            {name: "SEQUENCE", kind: Integer},
	"PropStatus": {name: "STATUS", kind: Enum, enum: map[uint64]string{uint64(ics.StatusTentative): "TENTATIVE", uint64(ics.StatusConfirmed): "CONFIRMED", uint64(ics.StatusCancelled): "CANCELLED", uint64(ics.StatusNeedsAction): "NEEDS-ACTION", uint64(ics.StatusCompleted): "COMPLETED",
		uint64(ics.StatusInProcess): "IN-PROCESS", uint64(ics.StatusDraft): "DRAFT", uint64(ics.StatusFinal): "FINAL"}},
	"PropSummary":            {name: "SUMMARY", kind: Text},
	"PropTimeTransparency":   {name: "TRANSP", kind: Enum, enum: map[uint64]string{uint64(ics.TimeTransparencyOpaque): "OPAQUE", uint64(ics.TimeTransparencyTransparent): "TRANSPARENT"}},
	"PropTrigger":            {name: "TRIGGER", kind: Duration, alt: map[string]string{"Duration": Duration, "DateTime": DateTime}},
	"PropTimezoneID":         {name: "TZID", kind: Text},
	"PropTimezoneName":       {name: "TZNAME", kind: Text},
	"PropTimezoneOffsetFrom": {name: "TZOFFSETFROM", kind: Offset},
	"PropTimezoneOffsetTo":   {name: "TZOFFSETTO", kind: Offset},
	"PropTimezoneURL":        {name: "TZURL", kind: URI},
	"PropUID":                {name: "UID", kind: Text},
	"PropURL":                {name: "URL", kind: URI},
	"PropURI":                {name: "URI", kind: URI},
	"PropVersion":            {name: "VERSION", kind: Text},
	"PropAlarmAgent":         {name: "ALARM-AGENT", kind: Text},
	"PropAlarmStatus":        {name: "STATUS", kind: Enum, enum: map[uint64]string{uint64(ics.AlarmStatusActive): "ACTIVE", uint64(ics.AlarmStatusCancelled): "CANCELLED", uint64(ics.AlarmStatusCompleted): "COMPLETED"}},
	"PropLastTriggered":      {name: "LAST-TRIGGERED", kind: DateTime},
	"PropAcknowledged":       {name: "ACKNOWLEDGED", kind: DateTime},
	"PropProximity":          {name: "PROXIMITY", kind: Text},
	"PropGeoLocation":        {name: "GEO-LOCATION", kind: URI},
	"PropDefaultAlarm":       {name: "DEFAULT-ALARM", kind: Boolean},
}

// Parameter kinds.
const (
	pText   = iota // text, quoted when needed
	pQuoted        // text, always quoted
	pURI           // quoted URI
	pAddrs         // list of quoted addresses
	pTexts         // list of quoted texts
	pEnum
	pBool
	pFlag
)

type paramSpec struct {
	name string
	kind int
	enum map[uint64]string
	def  string // enumeration values the package does not know read as this
}

// params is keyed by exported Go type name.
var params = map[string]paramSpec{
	"ParamAlternativeRepresentation": {name: "ALTREP", kind: pURI},
	"ParamCommonName":                {name: "CN", kind: pText},
	"ParamCalendarUserType":          {name: "CUTYPE", kind: pEnum, def: "UNKNOWN", enum: map[uint64]string{uint64(ics.CalendarUserTypeUnknown): "UNKNOWN", uint64(ics.CalendarUserTypeIndividual): "INDIVIDUAL", uint64(ics.CalendarUserTypeGroup): "GROUP", uint64(ics.CalendarUserTypeResource): "RESOURCE", uint64(ics.CalendarUserTypeRoom): "ROOM"}},
	"ParamDelegator":                 {name: "DELEGATED-FROM", kind: pAddrs},
	"ParamDelagatee":                 {name: "DELEGATED-TO", kind: pAddrs},
	"ParamDirectoryEntry":            {name: "DIR", kind: pQuoted},
	"ParamFormatType":                {name: "FMTTYPE", kind: pText},
	"ParamFreeBusyType":              {name: "FBTYPE", kind: pEnum, def: "UNKNOWN", enum: map[uint64]string{uint64(ics.FreeBusyTypeUnknown): "UNKNOWN", uint64(ics.FreeBusyTypeFree): "FREE", uint64(ics.FreeBusyTypeBusy): "BUSY", uint64(ics.FreeBusyTypeBusyUnavailable): "BUSY-UNAVAILABLE", uint64(ics.FreeBusyTypeBusyTentative): "BUSY-TENTATIVE"}},
	"ParamLanguage":                  {name: "LANGUAGE", kind: pText},
	"ParamMember":                    {name: "MEMBER", kind: pTexts},
	"ParamParticipationStatus": {name: "PARTSTAT", kind: pEnum, def: "UNKNOWN", enum: map[uint64]string{uint64(ics.ParticipationStatusUnknown): "UNKNOWN", uint64(ics.ParticipationStatusNeedsAction): "NEEDS-ACTION", uint64(ics.ParticipationStatusAccepted): "ACCEPTED", uint64(ics.ParticipationStatusDeclined): "DECLINED",
		uint64(ics.ParticipationStatusTentative): "TENTATIVE", uint64(ics.ParticipationStatusDelegated): "DELEGATED", uint64(ics.ParticipationStatusCompleted): "COMPLETED", uint64(ics.ParticipationStatusInProcess): "IN-PROCESS"}},
	"ParamRange":             {name: "RANGE", kind: pFlag},
	"ParamRelationshipType":  {name: "RELTYPE", kind: pEnum, def: "UNKNOWN", enum: map[uint64]string{uint64(ics.RelationshipTypeUnknown): "UNKNOWN", uint64(ics.RelationshipTypeParent): "PARENT", uint64(ics.RelationshipTypeChild): "CHILD", uint64(ics.RelationshipTypeSibling): "SIBLING"}},
	"ParamParticipationRole": {name: "ROLE", kind: pEnum, def: "UNKNOWN", enum: map[uint64]string{uint64(ics.ParticipationRoleUnknown): "UNKNOWN", uint64(ics.ParticipationRoleRequiredParticipant): "REQ-PARTICIPANT", uint64(ics.ParticipationRoleChair): "CHAIR", uint64(ics.ParticipationRoleOptParticipant): "OPT-PARTICIPANT", uint64(ics.ParticipationRoleNonParticipant): "NON-PARTICIPANT"}},
	"ParamRSVP":              {name: "RSVP", kind: pBool},
	"ParamSentBy":            {name: "SENT-BY", kind: pQuoted},
	"ParamURI":               {name: "URI", kind: pURI},
	"ParamID":                {name: "ID", kind: pQuoted},
	"ParamAgentID":           {name: "AGENT-ID", kind: pQuoted},
}

// comps is keyed by exported Go type name.
var comps = map[string]string{
	"Calendar": "VCALENDAR", "Event": "VEVENT", "Todo": "VTODO", "Journal": "VJOURNAL",
	"FreeBusy": "VFREEBUSY", "Timezone": "VTIMEZONE", "Standard": "STANDARD", "Daylight": "DAYLIGHT",
	"Alarm": "VALARM",
}

var alarms = map[string]string{
	"AlarmAudio": "AUDIO", "AlarmDisplay": "DISPLAY", "AlarmEmail": "EMAIL", "AlarmURI": "URI", "AlarmNone": "NONE",
}

// EnumOK reports whether v is a defined value of the named enumeration type
// (true for types that accept any value).
func EnumOK(goType string, v uint64) bool {
	if p, ok := props[goType]; ok {
		_, ok = p.enum[v]

		return ok
	}

	return true
}

// byName is the property table keyed by stream name, for the reference reader.
var byName = map[string]propSpec{}

var paramByName = map[string]paramSpec{}

func init() {
	for _, p := range props {
		byName[p.name] = p
	}

	byName["ACTION"] = propSpec{name: "ACTION", kind: Enum}

	for _, p := range params {
		paramByName[p.name] = p
	}
}
