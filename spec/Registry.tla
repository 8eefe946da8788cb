------------------------------ MODULE Registry ------------------------------
(* The named signatures: what the ICC signature registry, ICC.1:2010 and lcms2.h (2.13) assign to
   each name. A name is "family::NAME", or "NAME" for those outside of a family.                  *)
EXTENDS Integers, Sequences

ColorSpace == <<
    [name |-> "color_space::XYZ", is |-> "XYZ "],
    [name |-> "color_space::LAB", is |-> "Lab "],
    [name |-> "color_space::LUV", is |-> "Luv "],
    [name |-> "color_space::YCBCR", is |-> "YCbr"],
    [name |-> "color_space::YXY", is |-> "Yxy "],
    [name |-> "color_space::RGB", is |-> "RGB "],
    [name |-> "color_space::GRAY", is |-> "GRAY"],
    [name |-> "color_space::HSV", is |-> "HSV "],
    [name |-> "color_space::HLS", is |-> "HLS "],
    [name |-> "color_space::CMYK", is |-> "CMYK"],
    [name |-> "color_space::CMY", is |-> "CMY "],
    [name |-> "color_space::MCH1", is |-> "MCH1"],
    [name |-> "color_space::MCH2", is |-> "MCH2"],
    [name |-> "color_space::MCH3", is |-> "MCH3"],
    [name |-> "color_space::MCH4", is |-> "MCH4"],
    [name |-> "color_space::MCH5", is |-> "MCH5"],
    [name |-> "color_space::MCH6", is |-> "MCH6"],
    [name |-> "color_space::MCH7", is |-> "MCH7"],
    [name |-> "color_space::MCH8", is |-> "MCH8"],
    [name |-> "color_space::MCH9", is |-> "MCH9"],
    [name |-> "color_space::MCHA", is |-> "MCHA"],
    [name |-> "color_space::MCHB", is |-> "MCHB"],
    [name |-> "color_space::MCHC", is |-> "MCHC"],
    [name |-> "color_space::MCHD", is |-> "MCHD"],
    [name |-> "color_space::MCHE", is |-> "MCHE"],
    [name |-> "color_space::MCHF", is |-> "MCHF"],
    [name |-> "color_space::NAMED", is |-> "nmcl"],
    [name |-> "color_space::COLOR1", is |-> "1CLR"],
    [name |-> "color_space::COLOR2", is |-> "2CLR"],
    [name |-> "color_space::COLOR3", is |-> "3CLR"],
    [name |-> "color_space::COLOR4", is |-> "4CLR"],
    [name |-> "color_space::COLOR5", is |-> "5CLR"],
    [name |-> "color_space::COLOR6", is |-> "6CLR"],
    [name |-> "color_space::COLOR7", is |-> "7CLR"],
    [name |-> "color_space::COLOR8", is |-> "8CLR"],
    [name |-> "color_space::COLOR9", is |-> "9CLR"],
    [name |-> "color_space::COLOR10", is |-> "ACLR"],
    [name |-> "color_space::COLOR11", is |-> "BCLR"],
    [name |-> "color_space::COLOR12", is |-> "CCLR"],
    [name |-> "color_space::COLOR13", is |-> "DCLR"],
    [name |-> "color_space::COLOR14", is |-> "ECLR"],
    [name |-> "color_space::COLOR15", is |-> "FCLR"],
    [name |-> "color_space::LUVK", is |-> "LuvK"]>>

Platform == <<
    [name |-> "platform::MACINTOSH", is |-> "APPL"],
    [name |-> "platform::MICROSOFT", is |-> "MSFT"],
    [name |-> "platform::SOLARIS", is |-> "SUNW"],
    [name |-> "platform::SGI", is |-> "SGI "],
    [name |-> "platform::TALIGENT", is |-> "TGNT"],
    [name |-> "platform::UNICES", is |-> "*nix"]>>

PluginType == <<
    [name |-> "plugin_type::MAGIC", is |-> "acpp"],
    [name |-> "plugin_type::TRANSFORM", is |-> "xfmH"],
    [name |-> "plugin_type::INTERPOLATION", is |-> "inpH"],
    [name |-> "plugin_type::TAG_TYPE", is |-> "typH"],
    [name |-> "plugin_type::TAG", is |-> "tagH"],
    [name |-> "plugin_type::FORMATTERS", is |-> "frmH"],
    [name |-> "plugin_type::RENDERING_INTENT", is |-> "intH"],
    [name |-> "plugin_type::PARAMETRIC_CURVE", is |-> "parH"],
    [name |-> "plugin_type::MULTI_PROCESS_ELEMENT", is |-> "mpeH"],
    [name |-> "plugin_type::OPTIMIZATION", is |-> "optH"]>>

ProfileClass == <<
    [name |-> "profile_class::INPUT", is |-> "scnr"],
    [name |-> "profile_class::DISPLAY", is |-> "mntr"],
    [name |-> "profile_class::OUTPUT", is |-> "prtr"],
    [name |-> "profile_class::LINK", is |-> "link"],
    [name |-> "profile_class::ABSTRACT", is |-> "abst"],
    [name |-> "profile_class::COLOR_SPACE", is |-> "spac"],
    [name |-> "profile_class::NAMED_COLOR", is |-> "nmcl"]>>

Stage == <<
    [name |-> "stage::CURVE_SET_ELEM_TYPE", is |-> "cvst"],
    [name |-> "stage::MATRIX_ELEM_TYPE", is |-> "matf"],
    [name |-> "stage::C_LUT_ELEM_TYPE", is |-> "clut"],
    [name |-> "stage::B_ACS_ELEM_TYPE", is |-> "bACS"],
    [name |-> "stage::E_ACS_ELEM_TYPE", is |-> "eACS"],
    [name |-> "stage::XYZ_TO_LAB_ELEM_TYPE", is |-> "l2x "],
    [name |-> "stage::LAB_TO_XYZ_ELEM_TYPE", is |-> "x2l "],
    [name |-> "stage::NAMED_COLOR_ELEM_TYPE", is |-> "ncl "],
    [name |-> "stage::LAB_V2_TO_V4", is |-> "2 4 "],
    [name |-> "stage::LAB_V4_TO_V2", is |-> "4 2 "],
    [name |-> "stage::IDENTITY_ELEM_TYPE", is |-> "idn "],
    [name |-> "stage::LAB_TO_FLOAT_PCS", is |-> "d2l "],
    [name |-> "stage::FLOAT_PCS_TO_LAB", is |-> "l2d "],
    [name |-> "stage::XYZ_TO_FLOAT_PCS", is |-> "d2x "],
    [name |-> "stage::FLOAT_PCS_TO_XYZ", is |-> "x2d "],
    [name |-> "stage::CLIP_NEGATIVES_ELEM_TYPE", is |-> "clp "]>>

Tag == <<
    [name |-> "tag::A_TO_B0", is |-> "A2B0"],
    [name |-> "tag::A_TO_B1", is |-> "A2B1"],
    [name |-> "tag::A_TO_B2", is |-> "A2B2"],
    [name |-> "tag::BLUE_COLORANT", is |-> "bXYZ"],
    [name |-> "tag::BLUE_MATRIX_COLUMN", is |-> "bXYZ"],
    [name |-> "tag::BLUE_TRC", is |-> "bTRC"],
    [name |-> "tag::B_TO_A0", is |-> "B2A0"],
    [name |-> "tag::B_TO_A1", is |-> "B2A1"],
    [name |-> "tag::B_TO_A2", is |-> "B2A2"],
    [name |-> "tag::CALIBRATION_DATE_TIME", is |-> "calt"],
    [name |-> "tag::CHAR_TARGET", is |-> "targ"],
    [name |-> "tag::CHROMATIC_ADAPTATION", is |-> "chad"],
    [name |-> "tag::CHROMATICITY", is |-> "chrm"],
    [name |-> "tag::COLORANT_ORDER", is |-> "clro"],
    [name |-> "tag::COLORANT_TABLE", is |-> "clrt"],
    [name |-> "tag::COLORANT_TABLE_OUT", is |-> "clot"],
    [name |-> "tag::COLORIMETRIC_INTENT_IMAGE_STATE", is |-> "ciis"],
    [name |-> "tag::COPYRIGHT", is |-> "cprt"],
    [name |-> "tag::CRD_INFO", is |-> "crdi"],
    [name |-> "tag::DATA", is |-> "data"],
    [name |-> "tag::DATE_TIME", is |-> "dtim"],
    [name |-> "tag::DEVICE_MFG_DESC", is |-> "dmnd"],
    [name |-> "tag::DEVICE_MODEL_DESC", is |-> "dmdd"],
    [name |-> "tag::DEVICE_SETTINGS", is |-> "devs"],
    [name |-> "tag::D_TO_B0", is |-> "D2B0"],
    [name |-> "tag::D_TO_B1", is |-> "D2B1"],
    [name |-> "tag::D_TO_B2", is |-> "D2B2"],
    [name |-> "tag::D_TO_B3", is |-> "D2B3"],
    [name |-> "tag::B_TO_D0", is |-> "B2D0"],
    [name |-> "tag::B_TO_D1", is |-> "B2D1"],
    [name |-> "tag::B_TO_D2", is |-> "B2D2"],
    [name |-> "tag::B_TO_D3", is |-> "B2D3"],
    [name |-> "tag::GAMUT", is |-> "gamt"],
    [name |-> "tag::GRAY_TRC", is |-> "kTRC"],
    [name |-> "tag::GREEN_COLORANT", is |-> "gXYZ"],
    [name |-> "tag::GREEN_MATRIX_COLUMN", is |-> "gXYZ"],
    [name |-> "tag::GREEN_TRC", is |-> "gTRC"],
    [name |-> "tag::LUMINANCE", is |-> "lumi"],
    [name |-> "tag::MEASUREMENT", is |-> "meas"],
    [name |-> "tag::MEDIA_BLACK_POINT", is |-> "bkpt"],
    [name |-> "tag::MEDIA_WHITE_POINT", is |-> "wtpt"],
    [name |-> "tag::NAMED_COLOR", is |-> "ncol"],
    [name |-> "tag::NAMED_COLOR2", is |-> "ncl2"],
    [name |-> "tag::OUTPUT_RESPONSE", is |-> "resp"],
    [name |-> "tag::PERCEPTUAL_RENDERING_INTENT_GAMUT", is |-> "rig0"],
    [name |-> "tag::PREVIEW0", is |-> "pre0"],
    [name |-> "tag::PREVIEW1", is |-> "pre1"],
    [name |-> "tag::PREVIEW2", is |-> "pre2"],
    [name |-> "tag::PROFILE_DESCRIPTION", is |-> "desc"],
    [name |-> "tag::PROFILE_DESCRIPTION_ML", is |-> "dscm"],
    [name |-> "tag::PROFILE_SEQUENCE_DESC", is |-> "pseq"],
    [name |-> "tag::PROFILE_SEQUENCE_ID", is |-> "psid"],
    [name |-> "tag::PS2_CRD0", is |-> "psd0"],
    [name |-> "tag::PS2_CRD1", is |-> "psd1"],
    [name |-> "tag::PS2_CRD2", is |-> "psd2"],
    [name |-> "tag::PS2_CRD3", is |-> "psd3"],
    [name |-> "tag::PS2_CSA", is |-> "ps2s"],
    [name |-> "tag::PS2_RENDERING_INTENT", is |-> "ps2i"],
    [name |-> "tag::RED_COLORANT", is |-> "rXYZ"],
    [name |-> "tag::RED_MATRIX_COLUMN", is |-> "rXYZ"],
    [name |-> "tag::RED_TRC", is |-> "rTRC"],
    [name |-> "tag::SATURATION_RENDERING_INTENT_GAMUT", is |-> "rig2"],
    [name |-> "tag::SCREENING_DESC", is |-> "scrd"],
    [name |-> "tag::SCREENING", is |-> "scrn"],
    [name |-> "tag::TECHNOLOGY", is |-> "tech"],
    [name |-> "tag::UCR_BG", is |-> "bfd "],
    [name |-> "tag::VIEWING_COND_DESC", is |-> "vued"],
    [name |-> "tag::VIEWING_CONDITIONS", is |-> "view"],
    [name |-> "tag::VCGT", is |-> "vcgt"],
    [name |-> "tag::META", is |-> "meta"],
    [name |-> "tag::ARGYLL_ARTS", is |-> "arts"]>>

TagType == <<
    [name |-> "tag_type::CHROMATICITY", is |-> "chrm"],
    [name |-> "tag_type::COLORANT_ORDER", is |-> "clro"],
    [name |-> "tag_type::COLORANT_TABLE", is |-> "clrt"],
    [name |-> "tag_type::CRD_INFO", is |-> "crdi"],
    [name |-> "tag_type::CURVE", is |-> "curv"],
    [name |-> "tag_type::DATA", is |-> "data"],
    [name |-> "tag_type::DICT", is |-> "dict"],
    [name |-> "tag_type::DATE_TIME", is |-> "dtim"],
    [name |-> "tag_type::DEVICE_SETTINGS", is |-> "devs"],
    [name |-> "tag_type::LUT16", is |-> "mft2"],
    [name |-> "tag_type::LUT8", is |-> "mft1"],
    [name |-> "tag_type::LUTA_TO_B", is |-> "mAB "],
    [name |-> "tag_type::LUTB_TO_A", is |-> "mBA "],
    [name |-> "tag_type::MEASUREMENT", is |-> "meas"],
    [name |-> "tag_type::MULTI_LOCALIZED_UNICODE", is |-> "mluc"],
    [name |-> "tag_type::MULTI_PROCESS_ELEMENT", is |-> "mpet"],
    [name |-> "tag_type::NAMED_COLOR", is |-> "ncol"],
    [name |-> "tag_type::NAMED_COLOR2", is |-> "ncl2"],
    [name |-> "tag_type::PARAMETRIC_CURVE", is |-> "para"],
    [name |-> "tag_type::PROFILE_SEQUENCE_DESC", is |-> "pseq"],
    [name |-> "tag_type::PROFILE_SEQUENCE_ID", is |-> "psid"],
    [name |-> "tag_type::RESPONSE_CURVE_SET16", is |-> "rcs2"],
    [name |-> "tag_type::S15_FIXED16_ARRAY", is |-> "sf32"],
    [name |-> "tag_type::SCREENING", is |-> "scrn"],
    [name |-> "tag_type::SIGNATURE", is |-> "sig "],
    [name |-> "tag_type::TEXT", is |-> "text"],
    [name |-> "tag_type::TEXT_DESCRIPTION", is |-> "desc"],
    [name |-> "tag_type::U16_FIXED16_ARRAY", is |-> "uf32"],
    [name |-> "tag_type::UCR_BG", is |-> "bfd "],
    [name |-> "tag_type::UINT16_ARRAY", is |-> "ui16"],
    [name |-> "tag_type::UINT32_ARRAY", is |-> "ui32"],
    [name |-> "tag_type::UINT64_ARRAY", is |-> "ui64"],
    [name |-> "tag_type::UINT8_ARRAY", is |-> "ui08"],
    [name |-> "tag_type::VCGT", is |-> "vcgt"],
    [name |-> "tag_type::VIEWING_CONDITIONS", is |-> "view"],
    [name |-> "tag_type::XYZ", is |-> "XYZ "]>>

Technology == <<
    [name |-> "technology::DIGITAL_CAMERA", is |-> "dcam"],
    [name |-> "technology::FILM_SCANNER", is |-> "fscn"],
    [name |-> "technology::REFLECTIVE_SCANNER", is |-> "rscn"],
    [name |-> "technology::INKJET_PRINTER", is |-> "ijet"],
    [name |-> "technology::THERMAL_WAX_PRINTER", is |-> "twax"],
    [name |-> "technology::ELECTROPHOTOGRAPHIC_PRINTER", is |-> "epho"],
    [name |-> "technology::ELECTROSTATIC_PRINTER", is |-> "esta"],
    [name |-> "technology::DYE_SUBLIMATION_PRINTER", is |-> "dsub"],
    [name |-> "technology::PHOTOGRAPHIC_PAPER_PRINTER", is |-> "rpho"],
    [name |-> "technology::FILM_WRITER", is |-> "fprn"],
    [name |-> "technology::VIDEO_MONITOR", is |-> "vidm"],
    [name |-> "technology::VIDEO_CAMERA", is |-> "vidc"],
    [name |-> "technology::PROJECTION_TELEVISION", is |-> "pjtv"],
    [name |-> "technology::CRT_DISPLAY", is |-> "CRT "],
    [name |-> "technology::PM_DISPLAY", is |-> "PMD "],
    [name |-> "technology::AM_DISPLAY", is |-> "AMD "],
    [name |-> "technology::PHOTO_CD", is |-> "KPCD"],
    [name |-> "technology::PHOTO_IMAGE_SETTER", is |-> "imgs"],
    [name |-> "technology::GRAVURE", is |-> "grav"],
    [name |-> "technology::OFFSET_LITHOGRAPHY", is |-> "offs"],
    [name |-> "technology::SILKSCREEN", is |-> "silk"],
    [name |-> "technology::FLEXOGRAPHY", is |-> "flex"],
    [name |-> "technology::MOTION_PICTURE_FILM_SCANNER", is |-> "mpfs"],
    [name |-> "technology::MOTION_PICTURE_FILM_RECORDER", is |-> "mpfr"],
    [name |-> "technology::DIGITAL_MOTION_PICTURE_CAMERA", is |-> "dmpc"],
    [name |-> "technology::DIGITAL_CINEMA_PROJECTOR", is |-> "dcpj"]>>

General == <<
    [name |-> "MAGIC_NUMBER", is |-> "acsp"],
    [name |-> "LCMS_SIGNATURE", is |-> "lcms"],
    [name |-> "PERCEPTUAL_REFERENCE_MEDIUM_GAMUT", is |-> "prmg"],
    [name |-> "SCENE_COLORIMETRY_ESTIMATES", is |-> "scoe"],
    [name |-> "SCENE_APPEARANCE_ESTIMATES", is |-> "sape"],
    [name |-> "FOCAL_PLANE_COLORIMETRY_ESTIMATES", is |-> "fpce"],
    [name |-> "REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY", is |-> "rhoc"],
    [name |-> "REFLECTION_PRINT_OUTPUT_COLORIMETRY", is |-> "rpoc"],
    [name |-> "STATUS_A", is |-> "StaA"],
    [name |-> "STATUS_E", is |-> "StaE"],
    [name |-> "STATUS_I", is |-> "StaI"],
    [name |-> "STATUS_T", is |-> "StaT"],
    [name |-> "STATUS_M", is |-> "StaM"],
    [name |-> "DN", is |-> "DN  "],
    [name |-> "DNP", is |-> "DN P"],
    [name |-> "DNN", is |-> "DNN "],
    [name |-> "DNNP", is |-> "DNNP"]>>

CurveSegment == <<
    [name |-> "curve_segment::FORMULA", is |-> "parf"],
    [name |-> "curve_segment::SAMPLED", is |-> "samf"],
    [name |-> "curve_segment::SEGMENTED", is |-> "curf"]>>

Families == <<ColorSpace, Platform, PluginType, ProfileClass, Stage, Tag, TagType, Technology, General, CurveSegment>>

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
All == Cat(Families)
(* two names of one signature: the colorants of matrix profiles are the columns of the matrix *)
Aliases == {{"tag::RED_COLORANT", "tag::RED_MATRIX_COLUMN"}, {"tag::GREEN_COLORANT", "tag::GREEN_MATRIX_COLUMN"},
            {"tag::BLUE_COLORANT", "tag::BLUE_MATRIX_COLUMN"}}
Names == {All[i].name : i \in DOMAIN All}
Is(n) == (CHOOSE i \in DOMAIN All : All[i].name = n)
Value(n) == All[Is(n)].is
=============================================================================
