import subprocess,json
log=subprocess.run(["git","-C","/repo","log","--format=%h %s","0b798dc..HEAD"],capture_output=True,text=True).stdout.strip().split("\n")[::-1]
prop={"search with a repeated language": "C01", "find a known word that also begins": "C26", "written with a space in Spanish and Catalan": "C24", "Japanese date that a weekday follows": "C24", "Ukrainian words for one and two": "C24", "Vietnamese amounts that are followed": "C24", "the Vietnamese name of May": "C24", "take a word as time zone only as a whole when searching": "C16", "search the phrases whose words are shortened": "C16", "do not split a sentence after the day or the year": "C16","translate the words next to a punctuation": "C16", "keep the am of an hour after a bracket": "C16", "translate the phrases of a search": "C16", "do not split a sentence after the shortened": "C16", "detect the language of a text that only has a clock": "C16", "future direction of a glued amount when searching": "C16", "keep the am of an hour when searching dates": "C16", "do not split a sentence inside a date": "C16","joined by zero width non":"C18","single digit hour, minute":"C18","Arabic vowel marks":"C24","minutes ahead in Afrikaans":"C24","seconds ahead in Malay":"C24","future direction of a unit":"C24","Arabic \"one hour":"C24","number of hours in Belarusian":"C24","French abbreviation":"C24","words of a language in its regional":"C24","only by a pattern that covers":"C24","Chinese and Slovak":"C24","read \"now\" as November":"C24","numbered months in Tibetan":"C24","Hebrew, Polish and Thai":"C24","sanitize spaces of a date before":"C15","timestamps that written":"C15","Catalan word":"C24","limit the combinations":"C19","split sentences at opening":"C19","translate words of a search that follow":"C16","keep the am of a clock":"C16","do not report every reading":"C16","check timezone patterns":"C01","do not join the last word":"C19","do not share chained":"C02","read the charsets":"C02","accept day, month and year":"C09","do not alter a day":"C07","keep month and year when":"C08","do not move a string that only":"C08","use the offset of the default":"C12","compare a time with":"C08","do not lose a second":"C11","do not accumulate floating":"C11","keep the instant when":"C11","future direction of decades":"C11","\"this decade\"":"C24","keep the specified day when":"C21","use the specified date order":"C16","use the current Jalali":"C18","accept the 31st":"C18","do not alter a Jalali":"C18","real length of month":"C17","only try the previous":"C04","parse the found dates":"C16","use the date order of language":"C16","compare every incomplete":"C08","do not cut a character":"C12","keep month and day of a format":"C21","do not report a missing year":"C09","check the required parts in custom":"C09","non-breaking space":"C15","use a leftover number":"C14","can only be the day":"C14","leftover zero":"C14","search with an invalid parser":"C23","without its punctuation":"C14","read \"from now\"":"C24"}
with open("/verif/known-findings.jsonl","w") as f:
    for l in log:
        h,s=l.split(" ",1)
        for k,v in prop.items():
            if k in s:
                f.write(json.dumps(dict(kind="fixed",property=v,commit=h,text="fixed: property=%s %s %s"%(v,h,s.replace("fix: ",""))))+"\n"); break
        else: print("??",l)

OPEN=[("C24","'15 ཟླ་བ་དགུ་པ 2014': <<\"month\", 9>>","Tibetan ཟླ་བ་དགུ་པ (September) reads as June: vowel marks are dropped before the look-up"),
("C24","'15 ဇန် 2014': <<\"month\", 1>>","Burmese ဇန် (January) reads as June: vowel marks are dropped before the look-up"),
("C24","'15 ਜਨ 2014': <<\"month\", 1>>","Punjabi ਜਨ (January) reads as June: vowel marks are dropped before the look-up"),
("C24","'15 ජන 2014': <<\"month\", 1>>","Sinhala ජන (January) reads as June: vowel marks are dropped before the look-up"),
("C24","'15 ม.ค. 2014': <<\"month\", 1>>","Thai ม.ค. (January) reads as March (มี.ค.): vowel marks are dropped before the look-up")]
with open("/verif/known-findings.jsonl","a",encoding="utf-8") as f:
    for p,m,w in OPEN: f.write(json.dumps(dict(kind="open",property=p,match=m,what=w),ensure_ascii=False)+"\n")
