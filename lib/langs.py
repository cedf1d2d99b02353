"""Languages by ISO 639-1 and ISO 639-2, from the standard's tables"""

# two-letter codes and the three-letter codes, bibliographic or terminologic, of the same language
ISO1 = {k: tuple(v.split(",")) for k, v in (x.split("=") for x in """
    aa=aar ab=abk ae=ave af=afr ak=aka am=amh an=arg ar=ara as=asm av=ava
    ay=aym az=aze ba=bak be=bel bg=bul bh=bih bi=bis bm=bam bn=ben bo=bod,tib
    br=bre bs=bos ca=cat ce=che ch=cha co=cos cr=cre cs=ces,cze cu=chu cv=chv
    cy=cym,wel da=dan de=deu,ger dv=div dz=dzo ee=ewe el=ell,gre en=eng eo=epo es=spa
    et=est eu=baq,eus fa=fas,per ff=ful fi=fin fj=fij fo=fao fr=fra,fre fy=fry ga=gle
    gd=gla gl=glg gn=grn gu=guj gv=glv ha=hau he=heb hi=hin ho=hmo hr=hrv
    ht=hat hu=hun hy=arm,hye hz=her ia=ina id=ind ie=ile ig=ibo ii=iii ik=ipk
    io=ido is=ice,isl it=ita iu=iku ja=jpn jv=jav ka=geo,kat kg=kon ki=kik kj=kua
    kk=kaz kl=kal km=khm kn=kan ko=kor kr=kau ks=kas ku=kur kv=kom kw=cor
    ky=kir la=lat lb=ltz lg=lug li=lim ln=lin lo=lao lt=lit lu=lub lv=lav
    mg=mlg mh=mah mi=mao,mri mk=mac,mkd ml=mal mn=mon mr=mar ms=may,msa mt=mlt my=bur,mya
    na=nau nb=nob nd=nde ne=nep ng=ndo nl=dut,nld nn=nno no=nor nr=nbl nv=nav
    ny=nya oc=oci oj=oji om=orm or=ori os=oss pa=pan pi=pli pl=pol ps=pus
    pt=por qu=que rm=roh rn=run ro=ron,rum ru=rus rw=kin sa=san sc=srd sd=snd
    se=sme sg=sag si=sin sk=slo,slk sl=slv sm=smo sn=sna so=som sq=alb,sqi sr=srp
    ss=ssw st=sot su=sun sv=swe sw=swa ta=tam te=tel tg=tgk th=tha ti=tir
    tk=tuk tl=tgl tn=tsn to=ton tr=tur ts=tso tt=tat tw=twi ty=tah ug=uig
    uk=ukr ur=urd uz=uzb ve=ven vi=vie vo=vol wa=wln wo=wol xh=xho yi=yid
    yo=yor za=zha zh=chi,zho zu=zul
""".split())}

# every three-letter code scribbu knows
ISO2 = """
    aar abk ace ach ada ady afa afh afr ain aka akk alb ale alg alt amh ang anp apa ara arc arg arm arn
    arp art arw asm ast ath aus ava ave awa aym aze bad bai bak bal bam ban baq bas bat bej bel bem ben
    ber bho bih bik bin bis bla bnt bod bos bra bre btk bua bug bul bur byn cad cai car cat cau ceb cel
    ces cha chb che chg chi chk chm chn cho chp chr chu chv chy cmc cnr cop cor cos cpe cpf cpp cre crh
    crp csb cus cym cze dak dan dar day del den deu dgr din div doi dra dsb dua dum dut dyu dzo efi egy
    eka ell elx eng enm epo est eus ewe ewo fan fao fas fat fij fil fin fiu fon fra fre frm fro frr frs
    fry ful fur gaa gay gba gem geo ger gez gil gla gle glg glv gmh goh gon gor got grb grc gre grn gsw
    guj gwi hai hat hau haw heb her hil him hin hit hmn hmo hrv hsb hun hup hye iba ibo ice ido iii ijo
    iku ile ilo ina inc ind ine inh ipk ira iro isl ita jav jbo jpn jpr jrb kaa kab kac kal kam kan kar
    kas kat kau kaw kaz kbd kha khi khm kho kik kin kir kmb kok kom kon kor kos kpe krc krl kro kru kua
    kum kur kut lad lah lam lao lat lav lez lim lin lit lol loz ltz lua lub lug lui lun luo lus mac mad
    mag mah mai mak mal man mao map mar mas may mdf mdr men mga mic min mis mkd mkh mlg mlt mnc mni mno
    moh mon mos mri msa mul mun mus mwl mwr mya myn myv nah nai nap nau nav nbl nde ndo nds nep new nia
    nic niu nld nno nob nog non nor nqo nso nub nwc nya nym nyn nyo nzi oci oji ori orm osa oss ota oto
    paa pag pal pam pan pap pau peo per phi phn pli pol pon por pra pro pus qaa que raj rap rar roa roh
    rom ron rum run rup rus sad sag sah sai sal sam san sas sat scn sco sel sem sga sgn shn sid sin sio
    sit sla slo slk slv sma sme smi smj smn smo sms sna snd snk sog som son sot spa sqi srd srn srp srr
    ssa ssw suk sun sus sux swa swe syc syr tah tai tam tat tel tem ter tet tgk tgl tha tib tig tir tiv
    tkl tlh tli tmh tog ton tpi tsi tsn tso tuk tum tup tur tut tvl twi tyv udm uga uig ukr umb und urd
    uzb vai ven vie vol vot wak wal war was wel wen wln wol xal xho yao yap yid yor ypk zap zbl zen zgh
    zha zho znd zul zun zxx zza
""".split()
