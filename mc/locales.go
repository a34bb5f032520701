package main

import (
	"github.com/vorlif/spreak/humanize"
	loc_af "github.com/vorlif/spreak/humanize/locale/af"
	loc_ar "github.com/vorlif/spreak/humanize/locale/ar"
	loc_arDZ "github.com/vorlif/spreak/humanize/locale/arDZ"
	loc_ast "github.com/vorlif/spreak/humanize/locale/ast"
	loc_az "github.com/vorlif/spreak/humanize/locale/az"
	loc_be "github.com/vorlif/spreak/humanize/locale/be"
	loc_bg "github.com/vorlif/spreak/humanize/locale/bg"
	loc_bn "github.com/vorlif/spreak/humanize/locale/bn"
	loc_br "github.com/vorlif/spreak/humanize/locale/br"
	loc_bs "github.com/vorlif/spreak/humanize/locale/bs"
	loc_ca "github.com/vorlif/spreak/humanize/locale/ca"
	loc_ckb "github.com/vorlif/spreak/humanize/locale/ckb"
	loc_cs "github.com/vorlif/spreak/humanize/locale/cs"
	loc_cy "github.com/vorlif/spreak/humanize/locale/cy"
	loc_da "github.com/vorlif/spreak/humanize/locale/da"
	loc_de "github.com/vorlif/spreak/humanize/locale/de"
	loc_dsb "github.com/vorlif/spreak/humanize/locale/dsb"
	loc_el "github.com/vorlif/spreak/humanize/locale/el"
	loc_enAU "github.com/vorlif/spreak/humanize/locale/enAU"
	loc_enGB "github.com/vorlif/spreak/humanize/locale/enGB"
	loc_eo "github.com/vorlif/spreak/humanize/locale/eo"
	loc_es "github.com/vorlif/spreak/humanize/locale/es"
	loc_esAR "github.com/vorlif/spreak/humanize/locale/esAR"
	loc_esCO "github.com/vorlif/spreak/humanize/locale/esCO"
	loc_esMX "github.com/vorlif/spreak/humanize/locale/esMX"
	loc_esVE "github.com/vorlif/spreak/humanize/locale/esVE"
	loc_et "github.com/vorlif/spreak/humanize/locale/et"
	loc_eu "github.com/vorlif/spreak/humanize/locale/eu"
	loc_fa "github.com/vorlif/spreak/humanize/locale/fa"
	loc_fi "github.com/vorlif/spreak/humanize/locale/fi"
	loc_fr "github.com/vorlif/spreak/humanize/locale/fr"
	loc_fy "github.com/vorlif/spreak/humanize/locale/fy"
	loc_ga "github.com/vorlif/spreak/humanize/locale/ga"
	loc_gd "github.com/vorlif/spreak/humanize/locale/gd"
	loc_gl "github.com/vorlif/spreak/humanize/locale/gl"
	loc_he "github.com/vorlif/spreak/humanize/locale/he"
	loc_hi "github.com/vorlif/spreak/humanize/locale/hi"
	loc_hr "github.com/vorlif/spreak/humanize/locale/hr"
	loc_hsb "github.com/vorlif/spreak/humanize/locale/hsb"
	loc_hu "github.com/vorlif/spreak/humanize/locale/hu"
	loc_hy "github.com/vorlif/spreak/humanize/locale/hy"
	loc_ia "github.com/vorlif/spreak/humanize/locale/ia"
	loc_id "github.com/vorlif/spreak/humanize/locale/id"
	loc_ig "github.com/vorlif/spreak/humanize/locale/ig"
	loc_io "github.com/vorlif/spreak/humanize/locale/io"
	loc_is "github.com/vorlif/spreak/humanize/locale/is"
	loc_it "github.com/vorlif/spreak/humanize/locale/it"
	loc_ja "github.com/vorlif/spreak/humanize/locale/ja"
	loc_ka "github.com/vorlif/spreak/humanize/locale/ka"
	loc_kab "github.com/vorlif/spreak/humanize/locale/kab"
	loc_kk "github.com/vorlif/spreak/humanize/locale/kk"
	loc_km "github.com/vorlif/spreak/humanize/locale/km"
	loc_kn "github.com/vorlif/spreak/humanize/locale/kn"
	loc_ko "github.com/vorlif/spreak/humanize/locale/ko"
	loc_ky "github.com/vorlif/spreak/humanize/locale/ky"
	loc_lb "github.com/vorlif/spreak/humanize/locale/lb"
	loc_lt "github.com/vorlif/spreak/humanize/locale/lt"
	loc_lv "github.com/vorlif/spreak/humanize/locale/lv"
	loc_mk "github.com/vorlif/spreak/humanize/locale/mk"
	loc_ml "github.com/vorlif/spreak/humanize/locale/ml"
	loc_mn "github.com/vorlif/spreak/humanize/locale/mn"
	loc_mr "github.com/vorlif/spreak/humanize/locale/mr"
	loc_ms "github.com/vorlif/spreak/humanize/locale/ms"
	loc_my "github.com/vorlif/spreak/humanize/locale/my"
	loc_nb "github.com/vorlif/spreak/humanize/locale/nb"
	loc_ne "github.com/vorlif/spreak/humanize/locale/ne"
	loc_nl "github.com/vorlif/spreak/humanize/locale/nl"
	loc_nn "github.com/vorlif/spreak/humanize/locale/nn"
	loc_os "github.com/vorlif/spreak/humanize/locale/os"
	loc_pa "github.com/vorlif/spreak/humanize/locale/pa"
	loc_pl "github.com/vorlif/spreak/humanize/locale/pl"
	loc_pt "github.com/vorlif/spreak/humanize/locale/pt"
	loc_ptBR "github.com/vorlif/spreak/humanize/locale/ptBR"
	loc_ro "github.com/vorlif/spreak/humanize/locale/ro"
	loc_ru "github.com/vorlif/spreak/humanize/locale/ru"
	loc_sk "github.com/vorlif/spreak/humanize/locale/sk"
	loc_sl "github.com/vorlif/spreak/humanize/locale/sl"
	loc_sq "github.com/vorlif/spreak/humanize/locale/sq"
	loc_sr "github.com/vorlif/spreak/humanize/locale/sr"
	loc_srLatn "github.com/vorlif/spreak/humanize/locale/srLatn"
	loc_sv "github.com/vorlif/spreak/humanize/locale/sv"
	loc_sw "github.com/vorlif/spreak/humanize/locale/sw"
	loc_ta "github.com/vorlif/spreak/humanize/locale/ta"
	loc_te "github.com/vorlif/spreak/humanize/locale/te"
	loc_tg "github.com/vorlif/spreak/humanize/locale/tg"
	loc_th "github.com/vorlif/spreak/humanize/locale/th"
	loc_tk "github.com/vorlif/spreak/humanize/locale/tk"
	loc_tr "github.com/vorlif/spreak/humanize/locale/tr"
	loc_tt "github.com/vorlif/spreak/humanize/locale/tt"
	loc_udm "github.com/vorlif/spreak/humanize/locale/udm"
	loc_ug "github.com/vorlif/spreak/humanize/locale/ug"
	loc_uk "github.com/vorlif/spreak/humanize/locale/uk"
	loc_ur "github.com/vorlif/spreak/humanize/locale/ur"
	loc_uz "github.com/vorlif/spreak/humanize/locale/uz"
	loc_vi "github.com/vorlif/spreak/humanize/locale/vi"
	loc_zhHans "github.com/vorlif/spreak/humanize/locale/zhHans"
	loc_zhHant "github.com/vorlif/spreak/humanize/locale/zhHant"
)

type shipped struct {
	name string
	new  func() *humanize.LocaleData
}

func shippedLocales() []shipped {
	return []shipped{
		{"af", loc_af.New},
		{"be", loc_be.New},
		{"az", loc_az.New},
		{"ast", loc_ast.New},
		{"arDZ", loc_arDZ.New},
		{"ar", loc_ar.New},
		{"bg", loc_bg.New},
		{"bn", loc_bn.New},
		{"br", loc_br.New},
		{"bs", loc_bs.New},
		{"ca", loc_ca.New},
		{"ckb", loc_ckb.New},
		{"cs", loc_cs.New},
		{"cy", loc_cy.New},
		{"da", loc_da.New},
		{"de", loc_de.New},
		{"dsb", loc_dsb.New},
		{"el", loc_el.New},
		{"enAU", loc_enAU.New},
		{"enGB", loc_enGB.New},
		{"eo", loc_eo.New},
		{"es", loc_es.New},
		{"esAR", loc_esAR.New},
		{"esCO", loc_esCO.New},
		{"esMX", loc_esMX.New},
		{"esVE", loc_esVE.New},
		{"et", loc_et.New},
		{"eu", loc_eu.New},
		{"fa", loc_fa.New},
		{"fi", loc_fi.New},
		{"fr", loc_fr.New},
		{"fy", loc_fy.New},
		{"ga", loc_ga.New},
		{"gd", loc_gd.New},
		{"gl", loc_gl.New},
		{"he", loc_he.New},
		{"hi", loc_hi.New},
		{"hr", loc_hr.New},
		{"hsb", loc_hsb.New},
		{"hu", loc_hu.New},
		{"hy", loc_hy.New},
		{"ia", loc_ia.New},
		{"id", loc_id.New},
		{"ig", loc_ig.New},
		{"io", loc_io.New},
		{"is", loc_is.New},
		{"it", loc_it.New},
		{"ja", loc_ja.New},
		{"ka", loc_ka.New},
		{"kab", loc_kab.New},
		{"kk", loc_kk.New},
		{"km", loc_km.New},
		{"kn", loc_kn.New},
		{"ko", loc_ko.New},
		{"ky", loc_ky.New},
		{"lb", loc_lb.New},
		{"lt", loc_lt.New},
		{"lv", loc_lv.New},
		{"mk", loc_mk.New},
		{"ml", loc_ml.New},
		{"mn", loc_mn.New},
		{"mr", loc_mr.New},
		{"ms", loc_ms.New},
		{"my", loc_my.New},
		{"nb", loc_nb.New},
		{"ne", loc_ne.New},
		{"nl", loc_nl.New},
		{"nn", loc_nn.New},
		{"os", loc_os.New},
		{"pa", loc_pa.New},
		{"pl", loc_pl.New},
		{"pt", loc_pt.New},
		{"ptBR", loc_ptBR.New},
		{"ro", loc_ro.New},
		{"ru", loc_ru.New},
		{"sk", loc_sk.New},
		{"sl", loc_sl.New},
		{"sq", loc_sq.New},
		{"sr", loc_sr.New},
		{"srLatn", loc_srLatn.New},
		{"sv", loc_sv.New},
		{"sw", loc_sw.New},
		{"ta", loc_ta.New},
		{"te", loc_te.New},
		{"tg", loc_tg.New},
		{"th", loc_th.New},
		{"tk", loc_tk.New},
		{"tr", loc_tr.New},
		{"tt", loc_tt.New},
		{"udm", loc_udm.New},
		{"ug", loc_ug.New},
		{"uk", loc_uk.New},
		{"ur", loc_ur.New},
		{"uz", loc_uz.New},
		{"vi", loc_vi.New},
		{"zhHans", loc_zhHans.New},
		{"zhHant", loc_zhHant.New},
	}
}
