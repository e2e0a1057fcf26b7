// Code generated by tools/genreg.py; DO NOT EDIT.

package props

// Registry maps harness names to functions for native replay.
var Registry = map[string]func(){
	"H_D01_all": H_D01_all,
	"H_D01_attr": H_D01_attr,
	"H_D02_attr": H_D02_attr,
	"H_D02_bytes": H_D02_bytes,
	"H_D02_days": H_D02_days,
	"H_D02_fraction": H_D02_fraction,
	"H_D02_hours": H_D02_hours,
	"H_D02_huge": H_D02_huge,
	"H_D02_minutes": H_D02_minutes,
	"H_D02_seconds": H_D02_seconds,
	"H_D03_float": H_D03_float,
	"H_D03_fraction": H_D03_fraction,
	"H_D03_milliseconds": H_D03_milliseconds,
	"H_D03_seconds": H_D03_seconds,
	"H_D03_short": H_D03_short,
	"H_D03_text": H_D03_text,
	"H_D03_zone": H_D03_zone,
	"H_M01_all": H_M01_all,
	"H_M01_one": H_M01_one,
	"H_M01_prefixed": H_M01_prefixed,
	"H_M02_read": H_M02_read,
	"H_M02_write": H_M02_write,
	"H_M03_fields": H_M03_fields,
	"H_M03_range": H_M03_range,
	"H_M03_texts": H_M03_texts,
	"H_M04_attributes": H_M04_attributes,
	"H_M04_cut": H_M04_cut,
	"H_M04_elements": H_M04_elements,
	"H_M04_markup": H_M04_markup,
	"H_M04_mixed": H_M04_mixed,
	"H_M04_style": H_M04_style,
	"H_M05_all": H_M05_all,
	"H_M05_constructors": H_M05_constructors,
	"H_M05_identifier": H_M05_identifier,
	"H_M05_inner": H_M05_inner,
	"H_M05_one": H_M05_one,
	"H_M05_other": H_M05_other,
	"H_M05_recognised": H_M05_recognised,
	"H_M05_schemes": H_M05_schemes,
	"H_M05_section": H_M05_section,
	"H_M05_written": H_M05_written,
	"H_T01_absolute": H_T01_absolute,
	"H_T01_duration": H_T01_duration,
	"H_T01_orphan": H_T01_orphan,
	"H_T01_pure": H_T01_pure,
	"H_T01_start": H_T01_start,
	"H_T01_type": H_T01_type,
	"H_T02_append": H_T02_append,
	"H_T02_clone": H_T02_clone,
	"H_T02_ops": H_T02_ops,
	"H_T02_read": H_T02_read,
	"H_T02_set": H_T02_set,
	"H_T02_stale": H_T02_stale,
	"H_T03_mpd": H_T03_mpd,
	"H_T03_period": H_T03_period,
	"H_T03_set": H_T03_set,
	"H_T03_shared": H_T03_shared,
	"H_T03_words": H_T03_words,
	"H_T03_xml": H_T03_xml,
	"H_T04_bandwidth": H_T04_bandwidth,
	"H_T04_protection": H_T04_protection,
	"H_T04_strings": H_T04_strings,
	"H_T04_template": H_T04_template,
	"H_T05_constructors": H_T05_constructors,
	"H_T05_profiles": H_T05_profiles,
	"H_T05_ranges": H_T05_ranges,
	"H_T05_timescale": H_T05_timescale,
	"H_X01_bytes": H_X01_bytes,
	"H_X01_cdata": H_X01_cdata,
	"H_X01_elem": H_X01_elem,
	"H_X01_escape": H_X01_escape,
	"H_X01_struct": H_X01_struct,
	"H_X01_token_attr": H_X01_token_attr,
	"H_X01_token_text": H_X01_token_text,
	"H_X02_bytes": H_X02_bytes,
	"H_X02_frames": H_X02_frames,
	"H_X02_frames_loose": H_X02_frames_loose,
	"H_X02_loose": H_X02_loose,
	"H_X03_bytes": H_X03_bytes,
	"H_X03_charref": H_X03_charref,
	"H_X03_charref_value": H_X03_charref_value,
	"H_X03_decl": H_X03_decl,
	"H_X03_frames": H_X03_frames,
	"H_X03_inner": H_X03_inner,
	"H_X03_pieces": H_X03_pieces,
	"H_X04_attrs": H_X04_attrs,
	"H_X04_scopes": H_X04_scopes,
	"H_X05_attrs": H_X05_attrs,
	"H_X05_characters": H_X05_characters,
	"H_X05_declared": H_X05_declared,
	"H_X05_invalid": H_X05_invalid,
	"H_X05_nest": H_X05_nest,
	"H_X05_nesting": H_X05_nesting,
	"H_X06_comment": H_X06_comment,
	"H_X06_comment_field": H_X06_comment_field,
	"H_X06_declaration": H_X06_declaration,
	"H_X06_directive": H_X06_directive,
	"H_X06_directive_accept": H_X06_directive_accept,
	"H_X06_instruction": H_X06_instruction,
	"H_X07_bytes": H_X07_bytes,
	"H_X07_frames": H_X07_frames,
	"H_X07_loose": H_X07_loose,
	"H_X07_token": H_X07_token,
	"H_X08_encoder": H_X08_encoder,
	"H_X08_mpd": H_X08_mpd,
	"H_X08_period": H_X08_period,
	"H_X08_string": H_X08_string,
	"H_X08_tokens": H_X08_tokens,
	"H_X09_again": H_X09_again,
	"H_X09_any": H_X09_any,
	"H_X09_encoder": H_X09_encoder,
	"H_X09_input": H_X09_input,
	"H_X09_names": H_X09_names,
	"H_X09_read": H_X09_read,
	"H_X09_two": H_X09_two,
	"H_X09_written": H_X09_written,
	"H_X10_any": H_X10_any,
	"H_X10_same": H_X10_same,
	"H_X10_separate": H_X10_separate,
	"H_X10_three": H_X10_three,
}
