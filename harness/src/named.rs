//! The named signatures of the library (generated once; a name that goes missing fails to build).
use lcms2::types::{signatures, Signature};
pub fn named() -> Vec<(&'static str, Signature)> {
    vec![
        ("color_space::XYZ", signatures::color_space::XYZ),
        ("color_space::LAB", signatures::color_space::LAB),
        ("color_space::LUV", signatures::color_space::LUV),
        ("color_space::YCBCR", signatures::color_space::YCBCR),
        ("color_space::YXY", signatures::color_space::YXY),
        ("color_space::RGB", signatures::color_space::RGB),
        ("color_space::GRAY", signatures::color_space::GRAY),
        ("color_space::HSV", signatures::color_space::HSV),
        ("color_space::HLS", signatures::color_space::HLS),
        ("color_space::CMYK", signatures::color_space::CMYK),
        ("color_space::CMY", signatures::color_space::CMY),
        ("color_space::MCH1", signatures::color_space::MCH1),
        ("color_space::MCH2", signatures::color_space::MCH2),
        ("color_space::MCH3", signatures::color_space::MCH3),
        ("color_space::MCH4", signatures::color_space::MCH4),
        ("color_space::MCH5", signatures::color_space::MCH5),
        ("color_space::MCH6", signatures::color_space::MCH6),
        ("color_space::MCH7", signatures::color_space::MCH7),
        ("color_space::MCH8", signatures::color_space::MCH8),
        ("color_space::MCH9", signatures::color_space::MCH9),
        ("color_space::MCHA", signatures::color_space::MCHA),
        ("color_space::MCHB", signatures::color_space::MCHB),
        ("color_space::MCHC", signatures::color_space::MCHC),
        ("color_space::MCHD", signatures::color_space::MCHD),
        ("color_space::MCHE", signatures::color_space::MCHE),
        ("color_space::MCHF", signatures::color_space::MCHF),
        ("color_space::NAMED", signatures::color_space::NAMED),
        ("color_space::COLOR1", signatures::color_space::COLOR1),
        ("color_space::COLOR2", signatures::color_space::COLOR2),
        ("color_space::COLOR3", signatures::color_space::COLOR3),
        ("color_space::COLOR4", signatures::color_space::COLOR4),
        ("color_space::COLOR5", signatures::color_space::COLOR5),
        ("color_space::COLOR6", signatures::color_space::COLOR6),
        ("color_space::COLOR7", signatures::color_space::COLOR7),
        ("color_space::COLOR8", signatures::color_space::COLOR8),
        ("color_space::COLOR9", signatures::color_space::COLOR9),
        ("color_space::COLOR10", signatures::color_space::COLOR10),
        ("color_space::COLOR11", signatures::color_space::COLOR11),
        ("color_space::COLOR12", signatures::color_space::COLOR12),
        ("color_space::COLOR13", signatures::color_space::COLOR13),
        ("color_space::COLOR14", signatures::color_space::COLOR14),
        ("color_space::COLOR15", signatures::color_space::COLOR15),
        ("color_space::LUVK", signatures::color_space::LUVK),
        ("platform::MACINTOSH", signatures::platform::MACINTOSH),
        ("platform::MICROSOFT", signatures::platform::MICROSOFT),
        ("platform::SOLARIS", signatures::platform::SOLARIS),
        ("platform::SGI", signatures::platform::SGI),
        ("platform::TALIGENT", signatures::platform::TALIGENT),
        ("platform::UNICES", signatures::platform::UNICES),
        ("plugin_type::MAGIC", signatures::plugin_type::MAGIC),
        ("plugin_type::TRANSFORM", signatures::plugin_type::TRANSFORM),
        ("plugin_type::INTERPOLATION", signatures::plugin_type::INTERPOLATION),
        ("plugin_type::TAG_TYPE", signatures::plugin_type::TAG_TYPE),
        ("plugin_type::TAG", signatures::plugin_type::TAG),
        ("plugin_type::FORMATTERS", signatures::plugin_type::FORMATTERS),
        ("plugin_type::RENDERING_INTENT", signatures::plugin_type::RENDERING_INTENT),
        ("plugin_type::PARAMETRIC_CURVE", signatures::plugin_type::PARAMETRIC_CURVE),
        ("plugin_type::MULTI_PROCESS_ELEMENT", signatures::plugin_type::MULTI_PROCESS_ELEMENT),
        ("plugin_type::OPTIMIZATION", signatures::plugin_type::OPTIMIZATION),
        ("profile_class::INPUT", signatures::profile_class::INPUT),
        ("profile_class::DISPLAY", signatures::profile_class::DISPLAY),
        ("profile_class::OUTPUT", signatures::profile_class::OUTPUT),
        ("profile_class::LINK", signatures::profile_class::LINK),
        ("profile_class::ABSTRACT", signatures::profile_class::ABSTRACT),
        ("profile_class::COLOR_SPACE", signatures::profile_class::COLOR_SPACE),
        ("profile_class::NAMED_COLOR", signatures::profile_class::NAMED_COLOR),
        ("stage::CURVE_SET_ELEM_TYPE", signatures::stage::CURVE_SET_ELEM_TYPE),
        ("stage::MATRIX_ELEM_TYPE", signatures::stage::MATRIX_ELEM_TYPE),
        ("stage::C_LUT_ELEM_TYPE", signatures::stage::C_LUT_ELEM_TYPE),
        ("stage::B_ACS_ELEM_TYPE", signatures::stage::B_ACS_ELEM_TYPE),
        ("stage::E_ACS_ELEM_TYPE", signatures::stage::E_ACS_ELEM_TYPE),
        ("stage::XYZ_TO_LAB_ELEM_TYPE", signatures::stage::XYZ_TO_LAB_ELEM_TYPE),
        ("stage::LAB_TO_XYZ_ELEM_TYPE", signatures::stage::LAB_TO_XYZ_ELEM_TYPE),
        ("stage::NAMED_COLOR_ELEM_TYPE", signatures::stage::NAMED_COLOR_ELEM_TYPE),
        ("stage::LAB_V2_TO_V4", signatures::stage::LAB_V2_TO_V4),
        ("stage::LAB_V4_TO_V2", signatures::stage::LAB_V4_TO_V2),
        ("stage::IDENTITY_ELEM_TYPE", signatures::stage::IDENTITY_ELEM_TYPE),
        ("stage::LAB_TO_FLOAT_PCS", signatures::stage::LAB_TO_FLOAT_PCS),
        ("stage::FLOAT_PCS_TO_LAB", signatures::stage::FLOAT_PCS_TO_LAB),
        ("stage::XYZ_TO_FLOAT_PCS", signatures::stage::XYZ_TO_FLOAT_PCS),
        ("stage::FLOAT_PCS_TO_XYZ", signatures::stage::FLOAT_PCS_TO_XYZ),
        ("stage::CLIP_NEGATIVES_ELEM_TYPE", signatures::stage::CLIP_NEGATIVES_ELEM_TYPE),
        ("tag::A_TO_B0", signatures::tag::A_TO_B0),
        ("tag::A_TO_B1", signatures::tag::A_TO_B1),
        ("tag::A_TO_B2", signatures::tag::A_TO_B2),
        ("tag::BLUE_COLORANT", signatures::tag::BLUE_COLORANT),
        ("tag::BLUE_MATRIX_COLUMN", signatures::tag::BLUE_MATRIX_COLUMN),
        ("tag::BLUE_TRC", signatures::tag::BLUE_TRC),
        ("tag::B_TO_A0", signatures::tag::B_TO_A0),
        ("tag::B_TO_A1", signatures::tag::B_TO_A1),
        ("tag::B_TO_A2", signatures::tag::B_TO_A2),
        ("tag::CALIBRATION_DATE_TIME", signatures::tag::CALIBRATION_DATE_TIME),
        ("tag::CHAR_TARGET", signatures::tag::CHAR_TARGET),
        ("tag::CHROMATIC_ADAPTATION", signatures::tag::CHROMATIC_ADAPTATION),
        ("tag::CHROMATICITY", signatures::tag::CHROMATICITY),
        ("tag::COLORANT_ORDER", signatures::tag::COLORANT_ORDER),
        ("tag::COLORANT_TABLE", signatures::tag::COLORANT_TABLE),
        ("tag::COLORANT_TABLE_OUT", signatures::tag::COLORANT_TABLE_OUT),
        ("tag::COLORIMETRIC_INTENT_IMAGE_STATE", signatures::tag::COLORIMETRIC_INTENT_IMAGE_STATE),
        ("tag::COPYRIGHT", signatures::tag::COPYRIGHT),
        ("tag::CRD_INFO", signatures::tag::CRD_INFO),
        ("tag::DATA", signatures::tag::DATA),
        ("tag::DATE_TIME", signatures::tag::DATE_TIME),
        ("tag::DEVICE_MFG_DESC", signatures::tag::DEVICE_MFG_DESC),
        ("tag::DEVICE_MODEL_DESC", signatures::tag::DEVICE_MODEL_DESC),
        ("tag::DEVICE_SETTINGS", signatures::tag::DEVICE_SETTINGS),
        ("tag::D_TO_B0", signatures::tag::D_TO_B0),
        ("tag::D_TO_B1", signatures::tag::D_TO_B1),
        ("tag::D_TO_B2", signatures::tag::D_TO_B2),
        ("tag::D_TO_B3", signatures::tag::D_TO_B3),
        ("tag::B_TO_D0", signatures::tag::B_TO_D0),
        ("tag::B_TO_D1", signatures::tag::B_TO_D1),
        ("tag::B_TO_D2", signatures::tag::B_TO_D2),
        ("tag::B_TO_D3", signatures::tag::B_TO_D3),
        ("tag::GAMUT", signatures::tag::GAMUT),
        ("tag::GRAY_TRC", signatures::tag::GRAY_TRC),
        ("tag::GREEN_COLORANT", signatures::tag::GREEN_COLORANT),
        ("tag::GREEN_MATRIX_COLUMN", signatures::tag::GREEN_MATRIX_COLUMN),
        ("tag::GREEN_TRC", signatures::tag::GREEN_TRC),
        ("tag::LUMINANCE", signatures::tag::LUMINANCE),
        ("tag::MEASUREMENT", signatures::tag::MEASUREMENT),
        ("tag::MEDIA_BLACK_POINT", signatures::tag::MEDIA_BLACK_POINT),
        ("tag::MEDIA_WHITE_POINT", signatures::tag::MEDIA_WHITE_POINT),
        ("tag::NAMED_COLOR", signatures::tag::NAMED_COLOR),
        ("tag::NAMED_COLOR2", signatures::tag::NAMED_COLOR2),
        ("tag::OUTPUT_RESPONSE", signatures::tag::OUTPUT_RESPONSE),
        ("tag::PERCEPTUAL_RENDERING_INTENT_GAMUT", signatures::tag::PERCEPTUAL_RENDERING_INTENT_GAMUT),
        ("tag::PREVIEW0", signatures::tag::PREVIEW0),
        ("tag::PREVIEW1", signatures::tag::PREVIEW1),
        ("tag::PREVIEW2", signatures::tag::PREVIEW2),
        ("tag::PROFILE_DESCRIPTION", signatures::tag::PROFILE_DESCRIPTION),
        ("tag::PROFILE_DESCRIPTION_ML", signatures::tag::PROFILE_DESCRIPTION_ML),
        ("tag::PROFILE_SEQUENCE_DESC", signatures::tag::PROFILE_SEQUENCE_DESC),
        ("tag::PROFILE_SEQUENCE_ID", signatures::tag::PROFILE_SEQUENCE_ID),
        ("tag::PS2_CRD0", signatures::tag::PS2_CRD0),
        ("tag::PS2_CRD1", signatures::tag::PS2_CRD1),
        ("tag::PS2_CRD2", signatures::tag::PS2_CRD2),
        ("tag::PS2_CRD3", signatures::tag::PS2_CRD3),
        ("tag::PS2_CSA", signatures::tag::PS2_CSA),
        ("tag::PS2_RENDERING_INTENT", signatures::tag::PS2_RENDERING_INTENT),
        ("tag::RED_COLORANT", signatures::tag::RED_COLORANT),
        ("tag::RED_MATRIX_COLUMN", signatures::tag::RED_MATRIX_COLUMN),
        ("tag::RED_TRC", signatures::tag::RED_TRC),
        ("tag::SATURATION_RENDERING_INTENT_GAMUT", signatures::tag::SATURATION_RENDERING_INTENT_GAMUT),
        ("tag::SCREENING_DESC", signatures::tag::SCREENING_DESC),
        ("tag::SCREENING", signatures::tag::SCREENING),
        ("tag::TECHNOLOGY", signatures::tag::TECHNOLOGY),
        ("tag::UCR_BG", signatures::tag::UCR_BG),
        ("tag::VIEWING_COND_DESC", signatures::tag::VIEWING_COND_DESC),
        ("tag::VIEWING_CONDITIONS", signatures::tag::VIEWING_CONDITIONS),
        ("tag::VCGT", signatures::tag::VCGT),
        ("tag::META", signatures::tag::META),
        ("tag::ARGYLL_ARTS", signatures::tag::ARGYLL_ARTS),
        ("tag_type::CHROMATICITY", signatures::tag_type::CHROMATICITY),
        ("tag_type::COLORANT_ORDER", signatures::tag_type::COLORANT_ORDER),
        ("tag_type::COLORANT_TABLE", signatures::tag_type::COLORANT_TABLE),
        ("tag_type::CRD_INFO", signatures::tag_type::CRD_INFO),
        ("tag_type::CURVE", signatures::tag_type::CURVE),
        ("tag_type::DATA", signatures::tag_type::DATA),
        ("tag_type::DICT", signatures::tag_type::DICT),
        ("tag_type::DATE_TIME", signatures::tag_type::DATE_TIME),
        ("tag_type::DEVICE_SETTINGS", signatures::tag_type::DEVICE_SETTINGS),
        ("tag_type::LUT16", signatures::tag_type::LUT16),
        ("tag_type::LUT8", signatures::tag_type::LUT8),
        ("tag_type::LUTA_TO_B", signatures::tag_type::LUTA_TO_B),
        ("tag_type::LUTB_TO_A", signatures::tag_type::LUTB_TO_A),
        ("tag_type::MEASUREMENT", signatures::tag_type::MEASUREMENT),
        ("tag_type::MULTI_LOCALIZED_UNICODE", signatures::tag_type::MULTI_LOCALIZED_UNICODE),
        ("tag_type::MULTI_PROCESS_ELEMENT", signatures::tag_type::MULTI_PROCESS_ELEMENT),
        ("tag_type::NAMED_COLOR", signatures::tag_type::NAMED_COLOR),
        ("tag_type::NAMED_COLOR2", signatures::tag_type::NAMED_COLOR2),
        ("tag_type::PARAMETRIC_CURVE", signatures::tag_type::PARAMETRIC_CURVE),
        ("tag_type::PROFILE_SEQUENCE_DESC", signatures::tag_type::PROFILE_SEQUENCE_DESC),
        ("tag_type::PROFILE_SEQUENCE_ID", signatures::tag_type::PROFILE_SEQUENCE_ID),
        ("tag_type::RESPONSE_CURVE_SET16", signatures::tag_type::RESPONSE_CURVE_SET16),
        ("tag_type::S15_FIXED16_ARRAY", signatures::tag_type::S15_FIXED16_ARRAY),
        ("tag_type::SCREENING", signatures::tag_type::SCREENING),
        ("tag_type::SIGNATURE", signatures::tag_type::SIGNATURE),
        ("tag_type::TEXT", signatures::tag_type::TEXT),
        ("tag_type::TEXT_DESCRIPTION", signatures::tag_type::TEXT_DESCRIPTION),
        ("tag_type::U16_FIXED16_ARRAY", signatures::tag_type::U16_FIXED16_ARRAY),
        ("tag_type::UCR_BG", signatures::tag_type::UCR_BG),
        ("tag_type::UINT16_ARRAY", signatures::tag_type::UINT16_ARRAY),
        ("tag_type::UINT32_ARRAY", signatures::tag_type::UINT32_ARRAY),
        ("tag_type::UINT64_ARRAY", signatures::tag_type::UINT64_ARRAY),
        ("tag_type::UINT8_ARRAY", signatures::tag_type::UINT8_ARRAY),
        ("tag_type::VCGT", signatures::tag_type::VCGT),
        ("tag_type::VIEWING_CONDITIONS", signatures::tag_type::VIEWING_CONDITIONS),
        ("tag_type::XYZ", signatures::tag_type::XYZ),
        ("technology::DIGITAL_CAMERA", signatures::technology::DIGITAL_CAMERA),
        ("technology::FILM_SCANNER", signatures::technology::FILM_SCANNER),
        ("technology::REFLECTIVE_SCANNER", signatures::technology::REFLECTIVE_SCANNER),
        ("technology::INKJET_PRINTER", signatures::technology::INKJET_PRINTER),
        ("technology::THERMAL_WAX_PRINTER", signatures::technology::THERMAL_WAX_PRINTER),
        ("technology::ELECTROPHOTOGRAPHIC_PRINTER", signatures::technology::ELECTROPHOTOGRAPHIC_PRINTER),
        ("technology::ELECTROSTATIC_PRINTER", signatures::technology::ELECTROSTATIC_PRINTER),
        ("technology::DYE_SUBLIMATION_PRINTER", signatures::technology::DYE_SUBLIMATION_PRINTER),
        ("technology::PHOTOGRAPHIC_PAPER_PRINTER", signatures::technology::PHOTOGRAPHIC_PAPER_PRINTER),
        ("technology::FILM_WRITER", signatures::technology::FILM_WRITER),
        ("technology::VIDEO_MONITOR", signatures::technology::VIDEO_MONITOR),
        ("technology::VIDEO_CAMERA", signatures::technology::VIDEO_CAMERA),
        ("technology::PROJECTION_TELEVISION", signatures::technology::PROJECTION_TELEVISION),
        ("technology::CRT_DISPLAY", signatures::technology::CRT_DISPLAY),
        ("technology::PM_DISPLAY", signatures::technology::PM_DISPLAY),
        ("technology::AM_DISPLAY", signatures::technology::AM_DISPLAY),
        ("technology::PHOTO_CD", signatures::technology::PHOTO_CD),
        ("technology::PHOTO_IMAGE_SETTER", signatures::technology::PHOTO_IMAGE_SETTER),
        ("technology::GRAVURE", signatures::technology::GRAVURE),
        ("technology::OFFSET_LITHOGRAPHY", signatures::technology::OFFSET_LITHOGRAPHY),
        ("technology::SILKSCREEN", signatures::technology::SILKSCREEN),
        ("technology::FLEXOGRAPHY", signatures::technology::FLEXOGRAPHY),
        ("technology::MOTION_PICTURE_FILM_SCANNER", signatures::technology::MOTION_PICTURE_FILM_SCANNER),
        ("technology::MOTION_PICTURE_FILM_RECORDER", signatures::technology::MOTION_PICTURE_FILM_RECORDER),
        ("technology::DIGITAL_MOTION_PICTURE_CAMERA", signatures::technology::DIGITAL_MOTION_PICTURE_CAMERA),
        ("technology::DIGITAL_CINEMA_PROJECTOR", signatures::technology::DIGITAL_CINEMA_PROJECTOR),
        ("MAGIC_NUMBER", signatures::MAGIC_NUMBER),
        ("LCMS_SIGNATURE", signatures::LCMS_SIGNATURE),
        ("PERCEPTUAL_REFERENCE_MEDIUM_GAMUT", signatures::PERCEPTUAL_REFERENCE_MEDIUM_GAMUT),
        ("SCENE_COLORIMETRY_ESTIMATES", signatures::SCENE_COLORIMETRY_ESTIMATES),
        ("SCENE_APPEARANCE_ESTIMATES", signatures::SCENE_APPEARANCE_ESTIMATES),
        ("FOCAL_PLANE_COLORIMETRY_ESTIMATES", signatures::FOCAL_PLANE_COLORIMETRY_ESTIMATES),
        ("REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY", signatures::REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY),
        ("REFLECTION_PRINT_OUTPUT_COLORIMETRY", signatures::REFLECTION_PRINT_OUTPUT_COLORIMETRY),
        ("curve_segment::FORMULA", signatures::curve_segment::FORMULA),
        ("curve_segment::SAMPLED", signatures::curve_segment::SAMPLED),
        ("curve_segment::SEGMENTED", signatures::curve_segment::SEGMENTED),
        ("STATUS_A", signatures::STATUS_A),
        ("STATUS_E", signatures::STATUS_E),
        ("STATUS_I", signatures::STATUS_I),
        ("STATUS_T", signatures::STATUS_T),
        ("STATUS_M", signatures::STATUS_M),
        ("DN", signatures::DN),
        ("DNP", signatures::DNP),
        ("DNN", signatures::DNN),
        ("DNNP", signatures::DNNP),
    ]
}
