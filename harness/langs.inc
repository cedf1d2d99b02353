L(aar) L(abk) L(ace) L(ach) L(ada) L(ady) L(afa) L(afh) L(afr) L(ain) L(aka) L(akk)
L(alb) L(ale) L(alg) L(alt) L(amh) L(ang) L(anp) L(apa) L(ara) L(arc) L(arg) L(arm)
L(arn) L(arp) L(art) L(arw) L(ASM) L(ast) L(ath) L(aus) L(ava) L(ave) L(awa) L(aym)
L(aze) L(bad) L(bai) L(bak) L(bal) L(bam) L(ban) L(baq) L(bas) L(bat) L(bej) L(bel)
L(bem) L(ben) L(ber) L(bho) L(bih) L(bik) L(bin) L(bis) L(bla) L(bnt) L(bod) L(bos)
L(bra) L(bre) L(btk) L(bua) L(bug) L(bul) L(bur) L(byn) L(cad) L(cai) L(car) L(cat)
L(cau) L(ceb) L(cel) L(ces) L(cha) L(chb) L(che) L(chg) L(chi) L(chk) L(chm) L(chn)
L(cho) L(chp) L(chr) L(chu) L(chv) L(chy) L(cmc) L(cnr) L(cop) L(cor) L(cos) L(cpe)
L(cpf) L(cpp) L(cre) L(crh) L(crp) L(csb) L(cus) L(cym) L(cze) L(dak) L(dan) L(dar)
L(day) L(del) L(den) L(deu) L(dgr) L(din) L(DIV) L(doi) L(dra) L(dsb) L(dua) L(dum)
L(dut) L(dyu) L(dzo) L(efi) L(egy) L(eka) L(ell) L(elx) L(eng) L(enm) L(epo) L(est)
L(eus) L(ewe) L(ewo) L(fan) L(fao) L(fas) L(fat) L(fij) L(fil) L(fin) L(fiu) L(fon)
L(fra) L(fre) L(frm) L(fro) L(frr) L(frs) L(fry) L(ful) L(fur) L(gaa) L(gay) L(gba)
L(gem) L(geo) L(ger) L(gez) L(gil) L(gla) L(gle) L(glg) L(glv) L(gmh) L(goh) L(gon)
L(gor) L(got) L(grb) L(grc) L(gre) L(grn) L(gsw) L(guj) L(gwi) L(hai) L(hat) L(hau)
L(haw) L(heb) L(her) L(hil) L(him) L(hin) L(hit) L(hmn) L(hmo) L(hrv) L(hsb) L(hun)
L(hup) L(hye) L(iba) L(ibo) L(ice) L(ido) L(iii) L(ijo) L(iku) L(ile) L(ilo) L(ina)
L(inc) L(ind) L(ine) L(inh) L(ipk) L(ira) L(iro) L(isl) L(ita) L(jav) L(jbo) L(jpn)
L(jpr) L(jrb) L(kaa) L(kab) L(kac) L(kal) L(kam) L(kan) L(kar) L(kas) L(kat) L(kau)
L(kaw) L(kaz) L(kbd) L(kha) L(khi) L(khm) L(kho) L(kik) L(kin) L(kir) L(kmb) L(kok)
L(kom) L(kon) L(kor) L(kos) L(kpe) L(krc) L(krl) L(kro) L(kru) L(kua) L(kum) L(kur)
L(kut) L(lad) L(lah) L(lam) L(lao) L(lat) L(lav) L(lez) L(lim) L(lin) L(lit) L(lol)
L(loz) L(ltz) L(lua) L(lub) L(lug) L(lui) L(lun) L(luo) L(lus) L(mac) L(mad) L(mag)
L(mah) L(mai) L(mak) L(mal) L(man) L(mao) L(MAP) L(mar) L(mas) L(may) L(mdf) L(mdr)
L(men) L(mga) L(mic) L(MIN) L(mis) L(mkd) L(mkh) L(mlg) L(mlt) L(mnc) L(mni) L(mno)
L(moh) L(mon) L(mos) L(mri) L(msa) L(mul) L(mun) L(mus) L(mwl) L(mwr) L(mya) L(myn)
L(myv) L(nah) L(nai) L(nap) L(nau) L(nav) L(nbl) L(nde) L(ndo) L(nds) L(nep) L(NEW)
L(nia) L(nic) L(niu) L(nld) L(nno) L(nob) L(nog) L(non) L(nor) L(nqo) L(nso) L(nub)
L(nwc) L(nya) L(nym) L(nyn) L(nyo) L(nzi) L(oci) L(oji) L(ori) L(orm) L(osa) L(oss)
L(ota) L(oto) L(paa) L(pag) L(pal) L(pam) L(pan) L(pap) L(pau) L(peo) L(per) L(phi)
L(phn) L(pli) L(pol) L(pon) L(por) L(pra) L(pro) L(pus) L(qaa) L(que) L(raj) L(rap)
L(rar) L(roa) L(roh) L(rom) L(ron) L(rum) L(run) L(rup) L(rus) L(sad) L(sag) L(sah)
L(sai) L(sal) L(sam) L(san) L(sas) L(sat) L(scn) L(sco) L(sel) L(sem) L(sga) L(sgn)
L(shn) L(sid) L(sin) L(sio) L(sit) L(sla) L(slo) L(slk) L(slv) L(sma) L(sme) L(smi)
L(smj) L(smn) L(smo) L(sms) L(sna) L(snd) L(snk) L(sog) L(som) L(son) L(sot) L(spa)
L(sqi) L(srd) L(srn) L(srp) L(srr) L(ssa) L(ssw) L(suk) L(sun) L(sus) L(sux) L(swa)
L(swe) L(syc) L(syr) L(tah) L(tai) L(tam) L(tat) L(tel) L(tem) L(ter) L(tet) L(tgk)
L(tgl) L(tha) L(tib) L(tig) L(tir) L(tiv) L(tkl) L(tlh) L(tli) L(tmh) L(tog) L(ton)
L(tpi) L(tsi) L(tsn) L(tso) L(tuk) L(tum) L(tup) L(tur) L(tut) L(tvl) L(twi) L(tyv)
L(udm) L(uga) L(uig) L(ukr) L(umb) L(und) L(urd) L(uzb) L(vai) L(ven) L(vie) L(vol)
L(vot) L(wak) L(wal) L(war) L(was) L(wel) L(wen) L(wln) L(wol) L(xal) L(xho) L(yao)
L(yap) L(yid) L(yor) L(ypk) L(zap) L(zbl) L(zen) L(zgh) L(zha) L(zho) L(znd) L(zul)
L(zun) L(zxx) L(zza)
