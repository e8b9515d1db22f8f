/* first match counts; the list of known products: manufacturer, medium (-1: any), version (or last identification byte if id), name */
static const struct { char man[4]; int16_t med; uint8_t id, lo, hi; const char *name; } PRODUCTS[] = {
    { "ABB", -1, 0, 0x02, 0x02, "ABB Delta-Meter" },
    { "ABB", -1, 0, 0x20, 0x20, "ABB B21 113-100" },
    { "ACW", -1, 0, 0x09, 0x09, "Itron CF Echo 2" },
    { "ACW", -1, 0, 0x0A, 0x0A, "Itron CF 51" },
    { "ACW", -1, 0, 0x0B, 0x0B, "Itron CF 55" },
    { "ACW", -1, 0, 0x0E, 0x0E, "Itron BM +m" },
    { "ACW", -1, 0, 0x0F, 0x0F, "Itron CF 800" },
    { "ACW", -1, 0, 0x14, 0x14, "Itron CYBLE M-Bus 1.4" },
    { "AMT", -1, 0, 0xC0, 0xFF, "Aquametro CALEC ST" },
    { "AMT", -1, 0, 0x80, 0xBF, "Aquametro CALEC MB" },
    { "AMT", -1, 0, 0x40, 0x7F, "Aquametro SAPHIR" },
    { "AMT", -1, 0, 0x00, 0x3F, "Aquametro AMTRON" },
    { "BEC", 2, 0, 0x00, 0x00, "Berg DCMi" },
    { "BEC", 2, 0, 0x07, 0x07, "Berg BLMi" },
    { "BEC", 15, 0, 0x71, 0x71, "Berg BMB-10S0" },
    { "EFE", 6, 0, 0x00, 0x00, "Engelmann WaterStar" },
    { "EFE", -1, 0, 0x00, 0x00, "Engelmann / Elster SensoStar 2" },
    { "EFE", -1, 0, 0x01, 0x01, "Engelmann SensoStar 2C" },
    { "ELS", -1, 0, 0x02, 0x02, "Elster TMP-A" },
    { "ELS", -1, 0, 0x0A, 0x0A, "Elster Falcon" },
    { "ELS", -1, 0, 0x2F, 0x2F, "Elster F96 Plus" },
    { "ELV", -1, 0, 0x14, 0x1D, "Elvaco CMa10" },
    { "ELV", -1, 0, 0x32, 0x3B, "Elvaco CMa11" },
    { "EMH", -1, 0, 0x00, 0x00, "EMH DIZ" },
    { "EMU", 2, 0, 0x10, 0x10, "EMU Professional 3/75 M-Bus" },
    { "GAV", 2, 0, 0x2D, 0x30, "Carlo Gavazzi EM24" },
    { "GAV", 2, 0, 0x39, 0x3A, "Carlo Gavazzi EM21" },
    { "GAV", 2, 0, 0x40, 0x40, "Carlo Gavazzi EM33" },
    { "GMC", -1, 0, 0xE6, 0xE6, "GMC-I A230 EMMOD 206" },
    { "KAM", -1, 0, 0x01, 0x01, "Kamstrup 382 (6850-005)" },
    { "KAM", -1, 0, 0x08, 0x08, "Kamstrup Multical 601" },
    { "SLB", -1, 0, 0x02, 0x02, "Allmess Megacontrol CF-50" },
    { "SLB", -1, 0, 0x06, 0x06, "CF Compact / Integral MK MaXX" },
    { "HYD", -1, 0, 0x28, 0x28, "ABB F95 Typ US770" },
    { "HYD", -1, 0, 0x2F, 0x2F, "Hydrometer Sharky 775" },
    { "JAN", 2, 0, 0x09, 0x09, "Janitza UMG 96S" },
    { "LUG", -1, 0, 0x02, 0x02, "Landis & Gyr Ultraheat 2WR5" },
    { "LUG", -1, 0, 0x03, 0x03, "Landis & Gyr Ultraheat 2WR6" },
    { "LUG", -1, 0, 0x04, 0x04, "Landis & Gyr Ultraheat UH50" },
    { "LUG", -1, 0, 0x07, 0x07, "Landis & Gyr Ultraheat T230" },
    { "LSE", -1, 0, 0x99, 0x99, "Siemens WFH21" },
    { "NZR", -1, 0, 0x01, 0x01, "NZR DHZ 5/63" },
    { "NZR", -1, 0, 0x50, 0x50, "NZR IC-M2" },
    { "RAM", -1, 0, 0x03, 0x03, "Rossweiner ETK/ETW Modularis" },
    { "REL", -1, 0, 0x08, 0x08, "Relay PadPuls M1" },
    { "REL", -1, 0, 0x12, 0x12, "Relay PadPuls M4" },
    { "REL", -1, 0, 0x20, 0x20, "Relay Padin 4" },
    { "REL", -1, 0, 0x30, 0x30, "Relay AnDi 4" },
    { "REL", -1, 0, 0x40, 0x40, "Relay PadPuls M2" },
    { "RKE", -1, 0, 0x69, 0x69, "Ista sensonic II mbus" },
    { "SBC", -1, 1, 0x10, 0x10, "Saia-Burgess ALE3" },
    { "SBC", -1, 1, 0x19, 0x19, "Saia-Burgess ALE3" },
    { "SBC", -1, 1, 0x11, 0x11, "Saia-Burgess AWD3" },
    { "SEO", -1, 1, 0x30, 0x30, "Sensoco PT100" },
    { "GTE", -1, 1, 0x30, 0x30, "Sensoco PT100" },
    { "SEO", -1, 1, 0x41, 0x41, "Sensoco 2-NTC" },
    { "GTE", -1, 1, 0x41, 0x41, "Sensoco 2-NTC" },
    { "SEO", -1, 1, 0x45, 0x45, "Sensoco Laser Light" },
    { "GTE", -1, 1, 0x45, 0x45, "Sensoco Laser Light" },
    { "SEO", -1, 1, 0x48, 0x48, "Sensoco ADIO" },
    { "GTE", -1, 1, 0x48, 0x48, "Sensoco ADIO" },
    { "SEO", -1, 1, 0x51, 0x51, "Sensoco THU" },
    { "SEO", -1, 1, 0x61, 0x61, "Sensoco THU" },
    { "GTE", -1, 1, 0x51, 0x51, "Sensoco THU" },
    { "GTE", -1, 1, 0x61, 0x61, "Sensoco THU" },
    { "SEO", -1, 1, 0x80, 0x80, "Sensoco PulseCounter for E-Meter" },
    { "GTE", -1, 1, 0x80, 0x80, "Sensoco PulseCounter for E-Meter" },
    { "SEN", -1, 0, 0x08, 0x08, "Sensus PolluCom E" },
    { "SEN", -1, 0, 0x19, 0x19, "Sensus PolluCom E" },
    { "SEN", -1, 0, 0x0B, 0x0B, "Sensus PolluTherm" },
    { "SEN", -1, 0, 0x0E, 0x0E, "Sensus PolluStat E" },
    { "SON", -1, 0, 0x0D, 0x0D, "Sontex Supercal 531" },
    { "SPX", -1, 0, 0x31, 0x31, "Sensus PolluTherm" },
    { "SPX", -1, 0, 0x34, 0x34, "Sensus PolluTherm" },
    { "SVM", -1, 0, 0x08, 0x08, "Elster F2 / Deltamess F2" },
    { "SVM", -1, 0, 0x09, 0x09, "Elster F4 / Kamstrup SVM F22" },
    { "TCH", -1, 0, 0x26, 0x26, "Techem m-bus S" },
    { "TCH", -1, 0, 0x40, 0x40, "Techem ultra S3" },
    { "WZG", -1, 0, 0x03, 0x03, "Modularis ETW-EAX" },
    { "ZRM", -1, 0, 0x81, 0x81, "Minol Minocal C2" },
    { "ZRM", -1, 0, 0x82, 0x82, "Minol Minocal WR3" },
};
