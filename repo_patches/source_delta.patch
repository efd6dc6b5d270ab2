From 61a3b23ee5774ef0ad5f2326e4cfebdfb2dd0321 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:38:43 +0000
Subject: [PATCH 001/126] fix: Chinese calendar table lost the 30th day of a
 13th (intercalary) month

For 22 years whose intercalary month follows month 12, the length of that
month was recorded as the length of month 1.  In eight of them the year came
out a day short, so that one day belonged to no year and day_to_dmy( ) never
returned for it; in the others months 2 to 13 were a day late.
---
 chinese.dat | 36 ++++++++++++++++++------------------
 chinese.h   | 46 +++++++++++++++++++++++-----------------------
 2 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/chinese.dat b/chinese.dat
index e9ee402..7f79c90 100644
--- a/chinese.dat
+++ b/chinese.dat
@@ -1,40 +1,40 @@
 '��d��IG��v�UF��B�m%�uE�jK��K��ˢI�J˰Uʛ�҈�©����ҋ�����M�JM��j�[�����%��F��M�R���J�M��ʛjӈtéi��˷R���֑���UE����������놩K��;�R��ʢUU�Z��ʛԕ��ũ���η�M��ꑫʰZE��J�ꊫ����I��v�UF���mE�uE�r˛d�����I���v��������°����k��K���I�J��
 �k�����%����Λ����ΩJ͙M��ʢjӑt��i��Rw�RG���KU�UE��j��J����K�������ڈ�ʩV���j��ʢ���ԅ��M��}��M��
-�V�k��ڊ��J��Ƣ�N�I��ƛ+͈��mE�u�r��d�����IK��v�����D��%��E�����M��͢I�J��ʛVՈ�©�E���ҍ�����ΰJM��j����jC��&�iG�SG�RG���KU�U��
-�lՈ�ũ���Rw����������V�����ڊ����K��M��M�����VE�kE��ʛ�Ո�ƩɎ��.��Ƣ+M��İm��j��r��d�I�IK��v��J�������E��˛����ͩJ���z����V5��°م��m�ҍ���J�KE��ʒ���j��F�iG�RǛ�ƩSŔ����ʢl5��Ű���Rw��K�%K�UU�VE����ڊ����K����͛*ۈ�̩Z	�kE��ʢԵ�膲ю��n����+E�[��m��j��rK�h�QW�J��ƛ-5����ɔrk��ˢ������JK�������VE��I�م�ҍ��F���JM�SE��
+�V�k��ڊ��J��Ƣ�N�I��ƛ+͈��mE�u�r��d�����IK��v�����D��%��E�����M��͢I�J��ʛVՈ�©�E���ҍ�����ΰJM��j����jC��&�iG�RW�RG���KU�U��
+�lՈ�ũ���Rw����������V�����ڊ����K��M��]�����VE�kE��ʛ�Ո�ƩɎ��.��Ƣ+M��İm��j��r��d�I�IK��v��J�������E��˛����ͩJ���z����V5��°م��m�ҍ���J�KE��ʒ���j��F�iG�RǛ�ƩSŔ����ʢl5��Ű���Rw��K�%K�UU�VE����ڊ����K����͛*ۈ�̩Z	�kE��ʢԵ�膲ю��n����+E�[��m��j��rK�h�QW�J��ƛ-5����ɔrk��ˢ������JK�������VE��I�م�ҍ��F���JM�SE��
 �ZՈj��ʔ�v�R���ưU���ʊ�ʩlE�iK��K�b�E�)�Uu�VE��
-��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
-�Z��lŰꊝԶ�b���N�R�U���ʒ���t�j���K��ǛE��)�UƔ����¢�%���ы��{��M�*�U�ZI�ۂ��J��Ţ�M������J��+�kɔ�r�j��趒���QG�������ME��J��I�r���K��ˢR;�R��ʛU��Vũ�ʔ�u�ԅ��͒�ΰRM�������ZE��J��J��Ɣ����Su�U��
-�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����I˒JͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
-�M�UE��ʌ�J��ś�+������%���ʢW�ZŰڊ��Պ䆫�N��-�����L�Z�mE�ꪌjK�dǛI�I��Ɣ�ԁ�¢uE������������IK��z��J��D��%~�E��m��M��͛J�Jͩ�ʔVՁjâ����R���Ί���K��������j�i'~�K�R7�R��
-�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
+��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
+�Z��lŰꊝԶ�b���N�R�U���ʒ���t�j���K��ǛE��)�UƔ����¢�%���ы��{��M�*�U�ZI�ڒ��J��Ţ�M������J��+�kɔ�r�j��趒���QG�������ME��J��I�r���K��ˢR;�R��ʛU��Vũ�ʔ�u�ԅ��͒�ΰRM�������ZE��J��J��Ɣ����Su�U��
+�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����IےJͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
+�M�UE��ʌ�J��ś�+������%���ʢV�ZŰڊ��Պ䆫�N��-�����L�Z�mE�ꪌjK�dǛI�I��Ɣ�ԁ�¢uE������������IK��z��J��D��%~�E��m��M��͛J�Jͩ�ʔVՁjâ����R���Ί���K��������j�i'~�K�R7�R��
+�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
 �ZՁlŢiK���R��%׊�ʩU���������E��+~�K�����M�)�UY�Z	��
-��Ձ�Ţэ��}|���*�+ũ[ɔڪ�ꊤ���N~QG��v��F�-E�k���E�r˔dׁ�ˢI���v|�ʛU5�Vũ������ҍ���J�JM��ʌ���Z�Պ��F��Ɣ��J�U��ʛj5�lũi��Rw�b��EG�SV~UE����������K��K��˔E��*ˢUʍ��z��5��ũэ��}��N�*M�VJ~[���r�ꊫ���N�Q���+�-��I��I�r˛h׊���Q��������UE��j|�������M���R]�R��ʔV5�Z��ʍ�u|�ƛ�.��ΩRM�����ʢjE��J~j��c��bG�I�S��UE��
-�lŁ�E��ˍ�w|���I;�*ͩU������¢Յ��K~�M�����N�J�VJ�k�����&����΍�n|�ƛK5�-��ʔj��t��i��QW~RK������UE�����J�������R����z�ʛV5�Zũ�ʔԵ�Ԇ��N��M~S��������jE�ꊅjK�dǔI�I��ƍ��z��m�������������IK��Z~V�����ڂ��E�ҋ��M��͔J��J�Vʍֲz��&���Ҏ��n��ƢK����|���kËt��iG�RW�RK��
+��Ձ�Ţэ��}|���*�+ũ[ɔڪ�ꊤ���N~QG��v��F�-E�k���E�r˔dׁ�ˢI���v|�ʛU5�Vũ������ҍ���J�JM��ʌ���Z�Պ��F��Ɣ��J�U��ʛj5�lũi��Rw�b��EG�SV~UE����������K��K��˔E��*ˢUʍ��z��5��ũэ��}��N�*M�VJ~[���r�ꊫ���N�Q���+�-��I��I�r˛h׊���Q��������UE��j|�������M���R]�R��ʔV5�Z��ʍ�u|�ƛ�.��ΩRM�����ʢjE��J~j��b��bG�I�S��UE��
+�lŁ�E��ˍ�w|���I;�*ͩU������¢Յ��K~�M�����N�J�VJ�k�����&����΍�n|�ƛK5�-��ʔj��t��i��QW~RK������UE�����J�������R����z�ʛV5�Zũ�ʔԵ�Ԇ��N��M~S��������jE�ꊅjK�dǔI�I��ƍ��z��m�������������IK��Z~V�����ڂ��E�ҋ��M��͔J��J�Vʍֲz��&���Ҏ��n��ƢK����|���jӋt��iG�RW�RK��
 �K5�U��
-�j�z�ś�+�������ڃ���V����|ڊ�Յ�Ԇ��N��M��E��J�Z%�kE��ʍԶzdǛI/�Iǩ�Ɣ���¢m��j�|�����I�xIK����VJ����e~�E��ˍ�{|�͛J=�Jͩ������¢ن��M~Ҏ�������KE��ʃ���j���iG�RǍ��z�ʛMu�U��ʔlՃ�Ţ���R[~�M��J�U5wVE����ڊ����-����͍&�z�
-�Ze�mE��ʔԶ�d��I���N~����ċ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
+�j�z�ś�+�������ڃ���V����|ڊ�ԕ�Ԇ��N��M��E��J�Z%�kE��ʍԶzdǛI/�Iǩ�Ɣ���¢m��j�|�����I�xIK����VJ����e~�E��ˍ�{|�͛J=�Jͩ������¢ن��M~Ҏ�������KE��ʃ���j���iG�RǍ��z�ʛMu�U��ʔlՃ�Ţ���R[~�M��J�U5wVE����ڊ����-����͍&�z�
+�Ze�mE��ʔԶ�d��I���N~����ԋ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���VՋڂ�ن�ҍ��F���J-�KE��
 �Z�zj��&���R�����ʢM����|�ʛtE�i+w�K�����M�%�U5�VE��
 ���z�ś�M������&̓��Z��ڊ|ꊝ�F��.wIG��������D�ki~uE�j�d�z�ǛI��I��ʔ-��Ģ�ō��|ҋ���I;wJM�����J�ZE��f~�F��͍��z��Jm�K��
 �Z�lŢ醏R�|R���F�K5wU���ꃵ��t��k~�K��ˍ%�z%�U5�V��ʔ���Ţɍ��]~���*͋�̩ZE���ꊤ���.�IG���*�z+�kI�uE�j˔d׃�ǢI����|���-���iu������ҍ���I;�J��
 �UyZ��F��F��͔�΃�΢J����|�ʛZE��ju銖R��RG��F�K�~UE��
 �jy���K����˔%�)ˢU����z�ʛ�E��+wɍ�����N�*�Vz~ZI��
-�Եz���N�I��Ɣ+M�-�kɍj�|j˛dG�I7wIG�������-E���~�������z�˛KK�J��ʔV�Z��ʍҍ|ҍ��N�J=wJM��ʅ�ʢZE��j~iK�R��y%�K5�UE��
+�Եz���N�I��Ɣ+M�-�kɍj�|j˛dG�I7wIG�������-E���~�������z�˛J[�J��ʔV�Z��ʍҍ|ҍ��N�J=wJM��ʅ�ʢZE��j~iK�R��y%�K5�UE��
 �j��Ţ�ˍR�|���EK�S�uU����֊��E��k~�M��͍Ey*�Vʇ[I��
 ����Ƣю���|�ƛ+��Z*wkɔj�r��h�Qw~QG���KyUE�����I��˔���ˢR����|�ʛV���juي���ԅ��N�J]�RM��
-�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
+�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
 �MUwVE�����J����K��������z�ʛZ���ju�ʔԶ�d��IO���~����L�Zym��j���K��ǔIw�I��ʍ��z���ņ��uҋ������JM���~V���D��Ew�F�����s�ΔJ-�KE��
 �Z�zjÛ�ƆҎuR������ʢK����|���jE�iKw�K�Rǆ%�q�
 �Uu�V��
 ���z�ś�����u���&��ʢZ����|ꊝ���NwIO��Ά*�s�D�[�~mE�jˍd�z�ǛI����u�ʔ����¢�����|ҋ���IyJM��
 �-�q����~�F��͍��|�ΛJ����u�ʔZ��jâ醏Ҏ~R���F�KuwME��ʄ���t�ik��K�Rˍ%�z%˛Uņ��s�ʔ����Ţɍ���~�M�&M�VuwZE��
-���q���n�I��΍*{��kņ��sj˔eǄ���I����|���-E�m�u�������s��I{�J��ʍ55yZ��ņ��u�͔�̈́�΢JM���|�ʛZE��Fw醖R���q��K�~UE��
+���q���n�I��΍*{��kņ��sj˔dׄ���I����|���-E�m�u�������s��I{�J��ʍ55yZ��ņ��u�͔�̈́�΢JM���|�ʛZE��Fw醖R���q��K�~UE��
 �j{t�iˆR�u���%{�%ˢU����|�ʛ�E��Kw�M���%�q*�Vy�ZE��
 ���z�ƛ�Ά��u�Δ*̈́��kɍ��|j��dG�IowIG���+5p-E���~�E�����z�˛I����s�ʔU��ZŢ�ƍ��|ҍ���J}wJM��
 �V�qZE�٪~�F�RǍ�Ny��Kņ��s�
-�k�tŢi��R�|���%K�KvwU���J�l�q����~�M��͍%{*�VɆ��s�ʔԅ��mnɎ���~�Λ*M�Vjwk���J���qd�Io�IG���+Uy-��	�j�s�˔�K�IwnI����|���V����uՊ�����q��J}�J��
+�j�tŢi��R�|���%K�KvwU���J�l�q����~�M��͍%{*�VɆ��s�ʔԅ��mnɎ���~�Λ*M�Vjwk���J���qd�Io�IG���+Uy-��	�j�s�˔�K�IwnI����|���V����uՊ�����q��J}�J��
 �VUyZ��ʆ��sRǔ��%ǢKƍ�*{�ʛjE�i�u���R�E�q%K�S�~UE��
-��Uy���ˆ��u�͔%��UznV���2{�ʛ�E��mwю���Jr+M�Z�~k��j��{d�Qǆ��s�Ɣ+5�5��ʍj�|�˛�K�QwwRK��J�M5pVE���~ي����Ky��J͆��s�ʔW�Z��ʍ��|R��Ŏ���wS���J�ZUplE�i�~�K�b�EWyE�UƆ�r���E����ˍ��|���IM�U�uV���B��%pՅ�ѭ~�N��΍JMyKM�Zʆ��sj����nnQ���.{�ƛK����u�ʔjC�i7p��QwRK��
+��Uy���ˆ��u�͔%��UznV���2{�ʛ�E��mwю���Jr+M�Z�~k��j��{d�Qǆ��s�Ɣ+5�5��ʍj�|�˛�K�QwwRK��J�M5pVE���~ي����Ky��J͆��s�ʔV�Z��ʍ��|R��Ŏ���wS���J�ZUplE�i�~�K�b�EWyE�UƆ�r���E����ˍ��|���IM�U�uV���B��%pՅ�ѭ~�N��΍JMyKM�Zʆ��sj����nnQ���.{�ƛK����u�ʔjC�i7p��QwRK��
 �MUyVE��
 ���s�Ŕ��R}n�����|�ʛV��ժu銖�F��Np�N����S���J�ZEymE�j�T�sdǔI����l�ƍ�4{��ņj�u�����I[pIM���~VJ��B���w�E��͆��s�ΔJ�K��
 �Z3{jÛ醈ҮuQ���N�JrK���
@@ -54,7 +54,7 @@ t
 ��6rd�I���n��+�y-��Ɇjt�˔�G�IWpI���Z}���5E���uՅ�����s��J���l�ʍV�yZ��ʆ��u�Ɣ���JmpK���
 |�ʛjE��wi��R�%7r%�K~�
 k�
-�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
+�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
 ���{dǛIφ��u�Ɣ+��[�l�ɍjK|d�j�G�I�wIK��
 �+�pUE��
 ~��l���[{�͛J���:t�ʔV����n�ʍ�E|�.i�N�J�wK���J�Z5rjE��
@@ -91,7 +91,7 @@ w
 w�4b�D�զp�F��~�m��J�z��e�
 �Z�tjÔi�R�nR���F|K�gM���Jujd�E���p�K���%[k�
 �U�x��e�
-��u�ƔɎ���n���&M|VuiZ���Ju��cT�ɮpIG��~+Mk�D�kwj�ejˆd�sIw`I����n�ʍ��z��g����Ku��c��I�rJM��
+��u�ƔɎ���n���&M|VuiZ���Ju��cT�ɮpIG��~+Mk�D�kwj�ejˆd�sIw`I����n�ʍ��z��g����Ku��c��I�rJM��
 ~6UkZ��w��e�Ά��v��J����n�ʍZ�zժgi��Rw�Nb�F�K�pME��J|jUk����xR�e�͆%{t%˔U��*m�ʍ�E|��gɎ��w%d&M�V�pZE��
 ~�VkT�I�x��g��+5s��k�j+m�ˍdG|I�iI���Ju+Ub-E��	o����~�m��I�x��e�ʆ65sZ�����n�΍�N|J�iK����sVUbZE���pi��R~�Nk%�Kw�*d�
 �j�si�^��R�n���%�zM�gU���Ju�5b�E���p�N��~%]k*�V�x�*d�
diff --git a/chinese.h b/chinese.h
index 8cf6a90..1e838fa 100644
--- a/chinese.h
+++ b/chinese.h
@@ -61,14 +61,14 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xa4, 0xa4, 0xae, 0x93, 0xa5, 0xce, 0xb0, 0x4a,
 0x4d, 0x9f, 0xaa, 0x6a, 0x8c, 0xad, 0x8a, 0xab,
 0x6a, 0x43, 0x98, 0xe9, 0x26, 0x85, 0x69, 0x47,
-0xa6, 0x53, 0x47, 0x96, 0x52, 0x47, 0xb4, 0xa5,
+0xa6, 0x52, 0x57, 0x96, 0x52, 0x47, 0xb4, 0xa5,
 0x06, 0xa1, 0x4b, 0x55, 0x8e, 0x55, 0x05, 0xaf,
 0xad, 0x0a, 0x9a, 0x6c, 0xd5, 0x88, 0xb4, 0xc5,
 0xa9, 0xa9, 0x8b, 0x96, 0x52, 0x77, 0x83, 0x92,
 0x8b, 0xa4, 0xa5, 0xfa, 0x91, 0xaa, 0x8a, 0xb2,
 0x56, 0x85, 0x9d, 0xb5, 0xaa, 0x8a, 0xda, 0x8a,
 0xab, 0xd4, 0x05, 0x9a, 0xa9, 0x4b, 0x85, 0xc9,
-0x4d, 0xa6, 0x93, 0x4d, 0x96, 0x92, 0x0d, 0xb6,
+0x4d, 0xa6, 0x92, 0x5d, 0x96, 0x92, 0x0d, 0xb6,
 0xaa, 0x0c, 0xa1, 0x56, 0x45, 0x8e, 0x6b, 0x45,
 0xad, 0xda, 0xca, 0x9b, 0xd4, 0xd5, 0x88, 0xe4,
 0xc6, 0xa9, 0xc9, 0x8e, 0x96, 0x92, 0x2e, 0x85,
@@ -125,7 +125,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xca, 0xa2, 0x2d, 0x55, 0x90, 0xd6, 0xc4, 0xb0,
 0xb5, 0xc9, 0x9b, 0x72, 0xab, 0x8a, 0xb4, 0x8b,
 0xab, 0xa8, 0x0b, 0x9a, 0x51, 0x5b, 0x85, 0x52,
-0x4d, 0xa6, 0xa5, 0x8a, 0x94, 0xaa, 0x4a, 0xb4,
+0x4d, 0xa6, 0xa5, 0x9a, 0x94, 0xaa, 0x4a, 0xb4,
 0x56, 0x45, 0x9f, 0xb5, 0x89, 0x8c, 0xd9, 0x45,
 0xad, 0xd4, 0xcd, 0x9b, 0xa8, 0xcd, 0x88, 0xa9,
 0x0e, 0xa8, 0x52, 0x8d, 0x96, 0xa6, 0x6a, 0x83,
@@ -139,7 +139,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x81, 0xb6, 0xc2, 0xa2, 0xb5, 0x25, 0x8f, 0xd5,
 0x05, 0xaf, 0xd1, 0x8b, 0x9d, 0xa2, 0x7b, 0x8c,
 0xa2, 0x4d, 0xad, 0x2a, 0x0d, 0x9a, 0x55, 0x1a,
-0x87, 0x5a, 0x49, 0xa6, 0xdb, 0x82, 0x94, 0xea,
+0x87, 0x5a, 0x49, 0xa6, 0xda, 0x92, 0x94, 0xea,
 0x4a, 0xb4, 0xd8, 0xc5, 0xa2, 0xd1, 0x4d, 0x8e,
 0xd1, 0x0e, 0xaf, 0xa4, 0x8e, 0x9d, 0x4a, 0xad,
 0x8a, 0x2b, 0x05, 0xa8, 0x6b, 0xc9, 0x94, 0xda,
@@ -182,7 +182,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xc2, 0xa2, 0x6b, 0xe5, 0x90, 0x75, 0x05, 0xaf,
 0x6a, 0x8b, 0x9d, 0x64, 0x97, 0x8c, 0xa4, 0x47,
 0xad, 0x49, 0x47, 0x98, 0x95, 0x56, 0x85, 0x55,
-0x46, 0xa6, 0xad, 0x82, 0x94, 0xb6, 0x82, 0xb2,
+0x46, 0xa6, 0xad, 0x92, 0x94, 0xb6, 0x82, 0xb2,
 0xb5, 0x45, 0x9f, 0xb2, 0x6b, 0x8e, 0xd2, 0x0b,
 0xaf, 0xa4, 0xcb, 0x9b, 0x49, 0xfb, 0x88, 0x4a,
 0xcd, 0xa9, 0x56, 0x8a, 0x96, 0xb6, 0xb2, 0x81,
@@ -207,7 +207,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x49, 0xef, 0x7f, 0x49, 0x07, 0xa1, 0x95, 0x76,
 0x8e, 0x55, 0x4a, 0xad, 0xb5, 0x02, 0x9a, 0x6d,
 0x25, 0x87, 0xb5, 0x05, 0xa8, 0xb2, 0xcb, 0x94,
-0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xcb,
+0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xdb,
 0x92, 0x4a, 0xcd, 0xb0, 0x56, 0x8a, 0x9d, 0xb6,
 0xd4, 0x8a, 0xda, 0x82, 0xab, 0xd5, 0x85, 0x96,
 0xd2, 0x4b, 0x85, 0xd2, 0x4d, 0xa6, 0xa4, 0xcd,
@@ -222,7 +222,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xb5, 0xca, 0x8c, 0xba, 0x4a, 0xad, 0xb4, 0xc5,
 0x9b, 0xa9, 0x2b, 0x87, 0xc9, 0x0d, 0xa8, 0x92,
 0x8d, 0x96, 0x25, 0x9b, 0x83, 0xaa, 0xca, 0xa2,
-0x57, 0x05, 0x91, 0x5a, 0xc5, 0xb0, 0xda, 0x8a,
+0x56, 0x15, 0x91, 0x5a, 0xc5, 0xb0, 0xda, 0x8a,
 0x9d, 0xd4, 0xd5, 0x8a, 0xe4, 0x86, 0xab, 0xc9,
 0x4e, 0x98, 0x92, 0x2d, 0x87, 0x93, 0x86, 0xa4,
 0xab, 0x4c, 0x91, 0x5a, 0xe5, 0x7f, 0x6d, 0x45,
@@ -250,7 +250,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x7f, 0xc9, 0x4e, 0x9f, 0x92, 0x6e, 0x8e, 0x95,
 0x46, 0xad, 0xab, 0x0c, 0x9a, 0x5a, 0x45, 0x87,
 0x6d, 0x45, 0xa6, 0xea, 0xca, 0x94, 0xe4, 0x96,
-0x83, 0x64, 0xc7, 0xa2, 0x49, 0x07, 0x91, 0x49,
+0x83, 0x64, 0xc7, 0xa2, 0x49, 0x17, 0x91, 0x49,
 0xc7, 0xb0, 0x95, 0x86, 0x9d, 0x2b, 0x15, 0x89,
 0xb5, 0xc4, 0xa9, 0xb5, 0x85, 0x96, 0x6a, 0x4b,
 0x85, 0xb2, 0x8b, 0xa4, 0xa4, 0x07, 0x93, 0x49,
@@ -264,7 +264,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4a, 0x0d, 0x80, 0x4b, 0x45, 0x9f, 0xab, 0xca,
 0x8c, 0xad, 0x8a, 0xab, 0x6c, 0x05, 0x9a, 0x69,
 0x2b, 0x87, 0xa9, 0x0b, 0xa8, 0x52, 0xc7, 0x94,
-0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x05,
+0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x15,
 0x91, 0x56, 0x05, 0xaf, 0xb5, 0xca, 0x9b, 0xb4,
 0xd5, 0x8a, 0xd4, 0x85, 0xab, 0xa9, 0x8b, 0x96,
 0x92, 0x7b, 0x85, 0x92, 0x4d, 0xa6, 0x25, 0x0b,
@@ -333,14 +333,14 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xc9, 0x2e, 0x89, 0xc9, 0xce, 0xa9, 0x52, 0x4d,
 0x98, 0xaa, 0xaa, 0x83, 0xab, 0xca, 0xa2, 0x6a,
 0x45, 0x91, 0xea, 0x4a, 0x7e, 0x6a, 0x8b, 0x9d,
-0x63, 0x87, 0x8d, 0x62, 0x47, 0xad, 0x49, 0x07,
+0x62, 0x97, 0x8d, 0x62, 0x47, 0xad, 0x49, 0x07,
 0x9a, 0x53, 0x96, 0x85, 0x55, 0x45, 0xa6, 0xad,
 0x0a, 0x93, 0x6c, 0xc5, 0x81, 0xb5, 0x45, 0x9f,
 0xaa, 0xcb, 0x8d, 0xa2, 0x77, 0x7c, 0xa2, 0x8b,
 0x9d, 0x49, 0x3b, 0x89, 0x2a, 0xcd, 0xa9, 0x55,
 0x8a, 0x96, 0xb5, 0xb2, 0x83, 0xda, 0xc2, 0xa2,
 0xd5, 0x85, 0x8f, 0xb2, 0x4b, 0x7e, 0xd1, 0x4d,
-0x9f, 0xa3, 0x8d, 0x8d, 0xa4, 0x4e, 0xad, 0x4a,
+0x9f, 0xa2, 0x9d, 0x8d, 0xa4, 0x4e, 0xad, 0x4a,
 0x0d, 0x9a, 0x56, 0x4a, 0x87, 0x6b, 0x89, 0xa4,
 0xda, 0x02, 0x93, 0xd5, 0x26, 0x80, 0xe9, 0x06,
 0xa1, 0xd1, 0xce, 0x8d, 0xa2, 0x6e, 0x7c, 0xa5,
@@ -368,14 +368,14 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xb2, 0x7a, 0xda, 0xc2, 0x9b, 0xd5, 0x26, 0x88,
 0xe9, 0x06, 0xa8, 0xd2, 0x8e, 0x96, 0xa4, 0x6e,
 0x85, 0xa5, 0xc6, 0xa2, 0x4b, 0x85, 0x8f, 0x9b,
-0x8a, 0x7c, 0xad, 0x8a, 0x9d, 0x6b, 0xc3, 0x8b,
+0x8a, 0x7c, 0xad, 0x8a, 0x9d, 0x6a, 0xd3, 0x8b,
 0x74, 0x83, 0xab, 0x69, 0x47, 0x98, 0x52, 0x57,
 0x87, 0x52, 0x4b, 0xa6, 0xa5, 0x0a, 0x93, 0x4b,
 0x35, 0x80, 0x55, 0x05, 0xa1, 0xb5, 0x0a, 0x8c,
 0x6a, 0xb5, 0x7a, 0xb4, 0xc5, 0x9b, 0xa9, 0x2b,
 0x89, 0xa9, 0x0d, 0xa8, 0x92, 0x8d, 0x96, 0xa5,
 0xda, 0x83, 0xa6, 0x8a, 0xa4, 0x56, 0x85, 0x8f,
-0xb5, 0x8a, 0x7c, 0xda, 0x8a, 0x9d, 0xd5, 0x85,
+0xb5, 0x8a, 0x7c, 0xda, 0x8a, 0x9d, 0xd4, 0x95,
 0x8d, 0xd4, 0x86, 0xab, 0xc9, 0x4e, 0x98, 0x92,
 0x4d, 0x87, 0x93, 0x45, 0xa6, 0xab, 0x4a, 0x91,
 0x5a, 0x25, 0x80, 0x6b, 0x45, 0x9f, 0xea, 0xca,
@@ -404,14 +404,14 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x0a, 0x9a, 0x5a, 0x65, 0x89, 0x6d, 0x45, 0xa6,
 0xea, 0xca, 0x94, 0xd4, 0xb6, 0x83, 0x64, 0x87,
 0xa4, 0x49, 0x8f, 0x8f, 0x92, 0x4e, 0x7e, 0x95,
-0x86, 0x9d, 0xab, 0xc4, 0x8b, 0xad, 0xc2, 0xa9,
+0x86, 0x9d, 0xab, 0xd4, 0x8b, 0xad, 0xc2, 0xa9,
 0x6d, 0x85, 0x96, 0x6a, 0x8b, 0x85, 0xb2, 0x4b,
 0xa6, 0xa4, 0x07, 0x93, 0x49, 0x37, 0x80, 0x49,
 0x0b, 0xa1, 0x95, 0xca, 0x8d, 0x2d, 0xf5, 0x78,
 0xb6, 0x02, 0x9a, 0xb5, 0x25, 0x88, 0xd5, 0x05,
 0xa8, 0xd2, 0xcb, 0x94, 0xa4, 0xdb, 0x83, 0xa4,
 0x8d, 0xa4, 0x4a, 0x4d, 0x91, 0x95, 0x9a, 0x7c,
-0x9a, 0x8a, 0x9d, 0x57, 0xc5, 0x8b, 0xda, 0x82,
+0x9a, 0x8a, 0x9d, 0x56, 0xd5, 0x8b, 0xda, 0x82,
 0xab, 0xd9, 0x86, 0x96, 0xd2, 0x8d, 0x85, 0xd2,
 0x46, 0xa6, 0xa5, 0x0e, 0x93, 0x4a, 0x2d, 0x80,
 0x4b, 0x45, 0x9f, 0xab, 0x0a, 0x8c, 0x5a, 0xb5,
@@ -479,7 +479,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x37, 0x77, 0x49, 0x47, 0x98, 0x95, 0xf6, 0x83,
 0x95, 0x8a, 0xa4, 0x2d, 0x45, 0x91, 0xad, 0x8a,
 0x7e, 0xb5, 0x85, 0x9d, 0xb2, 0x0b, 0x8c, 0xa4,
-0xdb, 0x7a, 0xa4, 0xcb, 0x9b, 0x4b, 0x4b, 0x88,
+0xdb, 0x7a, 0xa4, 0xcb, 0x9b, 0x4a, 0x5b, 0x88,
 0x4a, 0x0d, 0xa8, 0x96, 0xca, 0x94, 0x56, 0x15,
 0x82, 0x5a, 0x05, 0xa1, 0xd5, 0xca, 0x8d, 0xd2,
 0x8d, 0x7c, 0xd2, 0x8d, 0x9d, 0xa4, 0x4e, 0x8a,
@@ -536,7 +536,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4e, 0x77, 0x53, 0x86, 0x96, 0xab, 0x4a, 0x82,
 0xad, 0xc2, 0xa2, 0x6d, 0x85, 0x8f, 0x6a, 0x8b,
 0x7e, 0xaa, 0x8b, 0x9d, 0xa4, 0x07, 0x8c, 0x49,
-0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x86, 0x86,
+0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x96, 0x86,
 0x56, 0x4a, 0xa6, 0xb5, 0x02, 0x93, 0xb5, 0x65,
 0x80, 0xd5, 0x45, 0x9f, 0xd2, 0xcb, 0x8d, 0xa4,
 0xbb, 0x7c, 0xa4, 0x8d, 0x9d, 0x49, 0x8d, 0x88,
@@ -604,8 +604,8 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x85, 0xd4, 0xf5, 0x71, 0xd4, 0x06, 0x93, 0xc9,
 0x6e, 0x80, 0x49, 0x0f, 0xa1, 0x92, 0xce, 0x8d,
 0x2a, 0x0d, 0x7b, 0xab, 0x04, 0x9a, 0x6b, 0xc5,
-0x86, 0xda, 0xca, 0x73, 0x6a, 0xcb, 0x94, 0x65,
-0xc7, 0x84, 0xa4, 0x87, 0xa4, 0x49, 0x87, 0x8f,
+0x86, 0xda, 0xca, 0x73, 0x6a, 0xcb, 0x94, 0x64,
+0xd7, 0x84, 0xa4, 0x87, 0xa4, 0x49, 0x87, 0x8f,
 0x93, 0xd6, 0x7c, 0x95, 0x8a, 0x9d, 0x2d, 0x45,
 0x8a, 0x6d, 0xa9, 0x75, 0xb5, 0x85, 0x96, 0xaa,
 0x0b, 0x85, 0xa4, 0xb7, 0x73, 0xa4, 0x0b, 0x93,
@@ -640,7 +640,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x71, 0x5a, 0x45, 0x91, 0xd9, 0xaa, 0x7e, 0xe9,
 0x46, 0x9f, 0x52, 0xc7, 0x8d, 0xa5, 0x4e, 0x79,
 0xa5, 0x06, 0x9a, 0x4b, 0xc5, 0x86, 0xab, 0xca,
-0x73, 0xad, 0x0a, 0x93, 0x6b, 0x05, 0x83, 0x74,
+0x73, 0xad, 0x0a, 0x93, 0x6a, 0x15, 0x83, 0x74,
 0xc5, 0xa2, 0x69, 0x8b, 0x8f, 0x52, 0xd7, 0x7c,
 0x92, 0x8b, 0x9d, 0x25, 0x4b, 0x8a, 0x4b, 0x76,
 0x77, 0x55, 0x85, 0x96, 0xad, 0x4a, 0x83, 0x6c,
@@ -683,7 +683,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x45, 0x91, 0xb5, 0xca, 0x7e, 0xd9, 0x8a, 0x9d,
 0xd2, 0x05, 0x8c, 0xa5, 0x4b, 0x79, 0xa5, 0x0e,
 0x9a, 0x4a, 0xcd, 0x86, 0xa5, 0xfa, 0x73, 0xaa,
-0xca, 0x94, 0x57, 0x05, 0x83, 0x5a, 0x05, 0xa1,
+0xca, 0x94, 0x56, 0x15, 0x83, 0x5a, 0x05, 0xa1,
 0xd9, 0xca, 0x8d, 0xd2, 0xf6, 0x7c, 0x52, 0x87,
 0x9d, 0xc5, 0x8e, 0x88, 0x8a, 0x8e, 0x77, 0x53,
 0x86, 0x96, 0xab, 0x4a, 0x83, 0x5a, 0x55, 0x70,
@@ -822,7 +822,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xab, 0x0a, 0x6b, 0xad, 0x0a, 0x8c, 0x6c, 0x75,
 0x7b, 0xb4, 0x05, 0x9a, 0xa9, 0xcb, 0x86, 0x92,
 0xdb, 0x75, 0x92, 0x8d, 0x96, 0x25, 0x8b, 0x81,
-0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xc2,
+0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xd2,
 0x7d, 0xda, 0xca, 0x9b, 0xd4, 0x45, 0x8a, 0xc9,
 0xad, 0x77, 0xc9, 0x4e, 0x98, 0x92, 0x0e, 0x85,
 0x26, 0x5d, 0x72, 0x2a, 0x0d, 0x93, 0x56, 0xca,
@@ -1059,7 +1059,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xa9, 0xcb, 0x70, 0xa9, 0x4b, 0x91, 0x92, 0xcd,
 0x7f, 0x25, 0x5b, 0x6b, 0xa5, 0x0a, 0x8c, 0x55,
 0xc5, 0x78, 0xad, 0xca, 0x65, 0xd5, 0x0a, 0x85,
-0xb5, 0x05, 0x75, 0xd4, 0xc6, 0x94, 0xc9, 0x8e,
+0xb4, 0x15, 0x75, 0xd4, 0xc6, 0x94, 0xc9, 0x8e,
 0x81, 0x92, 0xfd, 0x6e, 0x92, 0x8e, 0x8f, 0x26,
 0x4d, 0x7c, 0x56, 0x75, 0x69, 0x5a, 0x85, 0x88,
 0xda, 0x4a, 0x75, 0xd4, 0xf6, 0x63, 0x54, 0x07,
-- 
2.43.0


From c65948049823faab05fd5885f90314d3710c1d30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:38:43 +0000
Subject: [PATCH 002/126] fix: length of the last month of Jalali year 2327

The start of the following year was outside the table, so the last month
came out with 126 days.
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 58c1b7c..4f6bcc1 100644
--- a/date.cpp
+++ b/date.cpp
@@ -470,7 +470,7 @@ static void get_revolutionary_year_data( const long year, long *days,
 static long jalali_jd0( const int jalali_year)
 {
    static const short breaks[12] = { -708, -221,   -3,    6,  394,  720,
-                                      786, 1145, 1635, 1701, 1866, 2328 };
+                                      786, 1145, 1635, 1701, 1866, 2329 };
    static const short deltas[12] = { 1108, 1047,  984, 1249,  952,  891,
                                       930,  866,  869,  844,  848,  852 };
    long rval;
-- 
2.43.0


From 649e4e97698c9de8a27317e87febde8feb3a562d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 003/126] fix: Hebrew new year when the molad falls exactly at
 18h

Dehiyyah (b) postpones Rosh Hashanah when the molad is at or after noon.
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 4f6bcc1..6cc74df 100644
--- a/date.cpp
+++ b/date.cpp
@@ -305,7 +305,7 @@ static void get_hebrew_year_data( const long year, long *days, char *month_data)
             day++;
       else
          {
-         if( halakim > 18L * 1080L)
+         if( halakim >= 18L * 1080L)
             day++;
          if( mod( day, 7L) == 1 || mod( day, 7L) == 4 || mod( day, 7L) == 6L)
             day++;
-- 
2.43.0


From 996e85f96b30d2258d7e62e65fb244ffd0c97173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 004/126] fix: buffer overrun showing days to twelve or more
 decimal places

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 90f472b..00f1ec9 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -384,7 +384,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       {
       char month_str[25];
       char year_str[20];
-      char day_str[15];
+      char day_str[20];   /* two digits, point, up to 15 places, NUL */
 
       if( format & FULL_CTIME_MONTHS_AS_DIGITS)
          snprintf_err( month_str, sizeof( month_str), (leading_zeroes ? "%02d" : "%2d"), month);
-- 
2.43.0


From 75395bb81e263c5e0de21fd19b4cc501a3ac7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 005/126] fix: 1000-10-sept 12:34:56 was taken to be a FITS
 time

---
 get_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 85f8be9..e8933c1 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -533,7 +533,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                /* note that after spaces are added and the 'T' lowercased, */
                /* it actually reads YYYY-MM-DD t HH:MM:SS.                 */
    i = (int)strlen( str);
-   if( i > 18 && str[11] == 't')
+   if( i > 18 && str[10] == ' ' && str[11] == 't')
       if( str[4] == '-' && str[7] == '-' && str[15] == ':')
          {
          symbol = 'f';
-- 
2.43.0


From 214f9b0b0d928b4541433296458e440d3b5b9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 006/126] fix: day of week names when the current time is
 before 2000

---
 get_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index e8933c1..54130af 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -810,7 +810,11 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                month = ival;
             else if( (ival = day_of_week_name_to_index( str)) >= 0)
                {
-               ival -= ((long)(initial_t2k + 6.5)) % 7;
+               long curr_dow = (long)floorl( initial_t2k + 6.5) % 7;
+
+               if( curr_dow < 0)    /* before 2000 */
+                  curr_dow += 7;
+               ival -= (int)curr_dow;
                if( ival < -3)
                   ival += 7;
                else if( ival > 3)
-- 
2.43.0


From ce0398226a992cd6ee4fd60a823fb40f92ffd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:19 +0000
Subject: [PATCH 007/126] fix: get_time_from_string( ) aborted on inputs such
 as '3.5 jan 12' or '2008.5 3 4'

---
 get_time.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 54130af..910edaf 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -766,6 +766,8 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                   else   /* if month is 1st or last, year must be last/1st */
                      year_found = 4 - month_found;
                   }
+               else     /* both month and day were found: */
+                  year_found = 6 - month_found - day_found;
                }
             else        /* year_found... */
                if( !month_found && !day_found)  /* ...but nothing else */
@@ -783,9 +785,13 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                day_found = 6 - year_found - month_found;
             else if( !month_found)
                month_found = 6 - year_found - day_found;
-            assert( year_found > 0 && year_found < 4);
-            assert( month_found > 0 && month_found < 4);
-            assert( day_found > 0 && day_found < 4);
+            if( year_found < 1 || year_found > 3 || month_found < 1
+                  || month_found > 3 || day_found < 1 || day_found > 3)
+               {              /* contradictory input such as '2008.5 3 4' */
+               if( is_ut)
+                  *is_ut = -7;
+               return( initial_t2k);
+               }
             year = (long)floorl( ivals[year_found - 1] + .5);
             dday = ivals[day_found - 1];
             month = (int)( ivals[month_found - 1] + .5);
-- 
2.43.0


From 8f1b2d6f991445c9f925e05a326a141e379450d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:19 +0000
Subject: [PATCH 008/126] fix: runs of spaces in dates, and a one-byte overrun
 for long inputs, in get_time_from_string( )

---
 get_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 910edaf..53e3652 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -430,6 +430,8 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
              /* Ensure spaces between letters and digits.  For example,   */
              /* if time_str="11Nov 1918",  set str="11 Nov 1918".         */
              /* 'Q' is an exception to avoid '1q' becoming '1 q'.         */
+             /* Runs of spaces become a single space;  otherwise,  the    */
+             /* date in (say) '2008  3  4' would have an empty field.     */
    *str = (char)tolower( *time_str++);
    i = 1;
    while( (size_t)i < sizeof( buff) - 1 && *time_str)
@@ -438,7 +440,9 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                          || (isdigit( *time_str) && isalpha( time_str[-1])))
          if( *time_str != 'q' && *time_str != 'Q')
             str[i++] = ' ';
-      str[i++] = (char)tolower( *time_str++);
+      if( (size_t)i < sizeof( buff) - 1 && (*time_str != ' ' || str[i - 1] != ' '))
+         str[i++] = (char)tolower( *time_str);
+      time_str++;
       }
    str[i] = '\0';
    remove_trailing_spaces( str);
-- 
2.43.0


From 2aeff6be214c54b955ba7367f354000154fdf04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:16 +0000
Subject: [PATCH 009/126] fix: tdb_minus_utc( ) divided TDB-TT, already in
 seconds, by the seconds in a day

---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index c6ffd21..96f6570 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -461,5 +461,5 @@ double DLL_FUNC tdb_minus_utc( const double jd_utc)
 {
    const double t_cen = (jd_utc - J2000) / 36525.;
 
-   return( tdb_minus_tdt( t_cen) / seconds_per_day + td_minus_utc( jd_utc));
+   return( tdb_minus_tdt( t_cen) + td_minus_utc( jd_utc));
 }
-- 
2.43.0


From 199bd1fcffb61792ca0efd855ffa84616b413a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 010/126] fix: dmy_to_day( ) and days_in_month( ) read past the
 month table for month > 13

---
 date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/date.cpp b/date.cpp
index 6cc74df..d174865 100644
--- a/date.cpp
+++ b/date.cpp
@@ -710,9 +710,9 @@ long DLL_FUNC dmy_to_day( const int day, const int month, const long year,
    if( !rval)
       {
       if( day == RETURN_DAYS_IN_MONTH)
-         return( mdata[month - 1]);
+         return( month >= 1 && month <= N_MONTHS ? mdata[month - 1] : 0);
       jd = year_ends[0];
-      for( int i = 0; i < month - 1; i++)
+      for( int i = 0; i < month - 1 && i < N_MONTHS; i++)
          jd += mdata[i];
       jd += (long)day - 1;
       }
-- 
2.43.0


From 4c5041e648eeacd5b6785ef68a47612edeedf26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 011/126] fix: survey designations such as 9612 P-L weren't
 packed

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index d0ece99..9ab68e5 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -757,7 +757,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       i++;
                /* If the name starts with four digits followed by an */
                /* uppercase letter,  it's a provisional designation: */
-   if( number > 999 && number < 9000 && isupper( obj_name[i]))
+   if( number > 999 && number < 10000 && isupper( obj_name[i]))
       {
       int sub_designator;
       bool mangled_designation = false;
-- 
2.43.0


From c19543317c86b95b37c23c634b9de98fda1dd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 012/126] fix: unpacking of natural satellites S/yyyy P 100 to
 109

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index ddf3972..8ecba57 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -226,7 +226,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             obuff[7] = packed[8];       /* planet identifier */
             obuff[8] = ' ';
             i = 9;
-            if( digit > 10)
+            if( digit >= 10)
                obuff[i++] = '0' + digit / 10;
             if( digit)
                obuff[i++] = '0' + digit % 10;
-- 
2.43.0


From 888a01ddaa9e98d9fe547625622cba724b471632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:00 +0000
Subject: [PATCH 013/126] fix: unpacking numbered natural satellites such as
 Saturn CCXXXVIII aborted

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 8ecba57..e323873 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -169,7 +169,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    size_t i;
    int mask = 1, digit_mask = 0, space_mask = 0, digit;
    char provisional_desig[40];
-   const size_t obuff_size = 16;
+   const size_t obuff_size = 24;
 
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
-- 
2.43.0


From 3600b587058cbb60e58e71022f0cac1d1571d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:12 +0000
Subject: [PATCH 014/126] fix: unpack_mpc_desig( ) with no output buffer
 crashed on extended provisional desigs

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index e323873..547a2cf 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -89,7 +89,7 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
 
       if( year < 0 || desig_num < 0)
          rval = -1;
-      else
+      else if( obuff)
          {
          char letter = 'A' + desig_num % 25;
 
-- 
2.43.0


From 4b59be1c5331763b11a061e9ba35a53811ece975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 015/126] fix: leftovers of a failed attempt at packing a
 provisional designation were left in the output

---
 mpc_fmt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 9ab68e5..096a6b4 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -888,6 +888,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
 
    if( rval == -1)       /* Undeciphered.  If 7 chars or less,  assume it's */
       {                  /* an observer-supplied desig.  8 or more chars,   */
+      memset( packed_desig, ' ', 12);
       if( comet_desig)   /* start with '$' and put in up to eleven bytes of */
          {               /* the input name. */
          obj_name -= 2;
-- 
2.43.0


From 7554aff19563918b8a24b8d2fba177dac2617b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 016/126] fix: provisional desigs that can't be packed (cycle
 620 or more before 2000, or comets lacking a second letter) were mangled

---
 mpc_fmt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 096a6b4..6af1fd2 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -808,7 +808,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
 
             if( packed_desig[11] > 'I')
                n--;
-            if( n >= 62 * 62 * 62 * 62)
+            if( n >= 62 * 62 * 62 * 62 || packed_desig[11] == '0')
                mangled_designation = true;
             else
                {
@@ -818,6 +818,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
                encode_value_in_mutant_hex( packed_desig + 8, 4, n);
                }
             }
+         else        /* can't be expressed in either packed form */
+            mangled_designation = true;
          while( isdigit( obj_name[i]))
             i++;
          if( comet_desig)
-- 
2.43.0


From 8e61ed7d8edbadb43021878b918300312cb96282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:31 +0000
Subject: [PATCH 017/126] fix: net_name_to_byte_code( ): lower-case 'dr' (as in
 Gaiadr1) wasn't recognized; long names overran a buffer

---
 mpc_fmt.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 6af1fd2..f50ae22 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -545,17 +545,20 @@ NET Gaia1
 upper/lower case,  and dropping the 'DR' for Gaia,  we've almost
 assuredly got the right catalog.   */
 
-static void reduce_net_name( char *obuff, const char *ibuff)
+static void reduce_net_name( char *obuff, size_t obuff_size, const char *ibuff)
 {
-   while( *ibuff)
+   while( *ibuff && obuff_size > 1)
       if( *ibuff == '-' || *ibuff == ' ')
          ibuff++;
       else if( ibuff[0] == '.' && ibuff[1] == '0')
          ibuff += 2;
-      else if( ibuff[0] == 'D' && ibuff[1] == 'R')
+      else if( toupper( ibuff[0]) == 'D' && toupper( ibuff[1]) == 'R')
          ibuff += 2;
       else
+         {
          *obuff++ = toupper( *ibuff++);
+         obuff_size--;
+         }
    *obuff = '\0';
 }
 
@@ -564,10 +567,10 @@ char net_name_to_byte_code( const char *net_name)
    char net1[80], net2[80], rval = 0;
    size_t i;
 
-   reduce_net_name( net1, net_name);
+   reduce_net_name( net1, sizeof( net1), net_name);
    for( i = 0; net_codes[i]; i++)
       {
-      reduce_net_name( net2, net_codes[i] + 1);
+      reduce_net_name( net2, sizeof( net2), net_codes[i] + 1);
       if( !strcmp( net1, net2))
          rval = net_codes[i][0];
       }
-- 
2.43.0


From 75bfa70b0c19127b447f50ddfeace19111c44937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:05 +0000
Subject: [PATCH 018/126] fix: dates of 15-31 October 1582 in MPC records were
 ten days off

---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index f50ae22..c7dc493 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -267,8 +267,12 @@ double extract_date_from_mpc_report( const char *buff, unsigned *format)
       }
 
    if( month >= 1 && month <= 12 && rval > 0. && rval < 99.)
-      rval += (double)dmy_to_day( 0, month, year,
-                                    CALENDAR_JULIAN_GREGORIAN) - .5;
+      {
+      const int day = (int)rval;    /* matters only for October 1582 */
+
+      rval += (double)( dmy_to_day( day, month, year,
+                           CALENDAR_JULIAN_GREGORIAN) - day) - .5;
+      }
 
              /* Radar obs are always given to the nearest UTC second. So  */
              /* some rounding is usually required with MPC microday data. */
-- 
2.43.0


From 8cf790fde8049e5f32134d3fd30ae5b0e2c430ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:43 +0000
Subject: [PATCH 019/126] fix: RA/dec format 307 (HHMMSSs, ddmmSSs) wasn't
 recognized

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index c7dc493..9ea8fce 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -363,7 +363,7 @@ static double get_ra_dec( const char *ibuff, int *format, double *precision)
    rval = quick_atof( buff);
    while( isdigit( buff[i]))
       i++;
-   if( i > 7)        /* "packed" highly precise RA/decs described above */
+   if( i >= 7)       /* "packed" highly precise RA/decs described above */
       {
       unsigned tval;
       double factor = 1. / 3600.;
-- 
2.43.0


From c4185d19d687c3b344bef1ff91522fd6ad341c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 020/126] fix: RA output in format 200 (whole degrees) showed
 hours

---
 mpc_fmt2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index dd40a5d..fea3762 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -51,7 +51,7 @@ void output_angle_to_buff( char *obuff, double angle, int precision)
    if( (precision >= 100 && precision <= 116) /* decimal quantity, dd.dd... */
         || ( precision >= 200 && precision <= 215)) /* decimal ddd.dd... */
       {
-      const int two_digits = (precision <= 200);
+      const int two_digits = (precision < 200);
 
       n_digits_to_show = precision % 100;
       power_mul = ten_to_the_nth( n_digits_to_show);
-- 
2.43.0


From 27e77cd58a22a0be614338639106e3dc562de477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:50 +0000
Subject: [PATCH 021/126] fix: formats 100 and 200 lacked their decimal point
 and were read back as other formats

---
 mpc_fmt2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index fea3762..0fe098c 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -59,6 +59,8 @@ void output_angle_to_buff( char *obuff, double angle, int precision)
 
       snprintf( obuff, 4, (two_digits ? "%02u" : "%03u"),
                   (int)( fraction / power_mul));
+      if( !n_digits_to_show)           /* formats 100, 200 : 'zz.', 'ddd.' */
+         strcat( obuff, ".");
       fraction %= power_mul;
       }
    else
-- 
2.43.0


From 17ba723e3d151e769ffa8a4319a68dd1ed133bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:39 +0000
Subject: [PATCH 022/126] fix: quick_strtod( ) overflowed for numbers of ten or
 more digits

---
 mpc_code.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5a3d6c0..18c1db1 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -217,8 +217,7 @@ robust solution.        */
 double quick_strtod( const char *ibuff, const char **endptr)
 {
    bool is_negative = false, got_a_digit = false;
-   int integer_part = 0;
-   double rval;
+   double rval, integer_part = 0.;
 
    if( endptr)
       *endptr = ibuff;
@@ -234,12 +233,12 @@ double quick_strtod( const char *ibuff, const char **endptr)
    if( *ibuff >= '0' && *ibuff <= '9')
       got_a_digit = true;
    while( *ibuff >= '0' && *ibuff <= '9')
-      integer_part = integer_part * 10 + (*ibuff++ - '0');
+      integer_part = integer_part * 10. + (double)( *ibuff++ - '0');
    if( *ibuff != '.')
-      rval = (double)integer_part;
+      rval = integer_part;
    else
       {
-      int frac_part = 0, divisor = 1;
+      double frac_part = 0., divisor = 1.;
 
       ibuff++;
       if( *ibuff < '0' || *ibuff > '9')
@@ -247,10 +246,10 @@ double quick_strtod( const char *ibuff, const char **endptr)
             return( 0.);
       while( *ibuff >= '0' && *ibuff <= '9')
          {
-         frac_part = frac_part * 10 + (*ibuff++ - '0');
-         divisor *= 10;
+         frac_part = frac_part * 10. + (double)( *ibuff++ - '0');
+         divisor *= 10.;
          }
-      rval = (double)integer_part + (double)frac_part / (double)divisor;
+      rval = integer_part + frac_part / divisor;
       }
    if( endptr)
       *endptr = ibuff;
-- 
2.43.0


From dfd5c72aa369f5e6737ec613f22f04efd33b9657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:28 +0000
Subject: [PATCH 023/126] fix: get_ra_from_string( ) took HH MM.mm to be
 degrees and minutes

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 18c1db1..543322e 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -668,7 +668,7 @@ double get_ra_from_string( const char *buff, int *bytes_read)
    int n_fields;
    double rval = _get_angle( buff, bytes_read, &n_fields);
 
-   if( n_fields > 2)     /* assume HH MM.mm or HH MM SS.sss */
+   if( n_fields > 1)     /* assume HH MM.mm or HH MM SS.sss */
       rval *= 15.;
    if( !n_fields || rval > 360.)
       *bytes_read = 0;
-- 
2.43.0


From 293568f10dfa2eecce68dcca85bc46e6996939db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:36 +0000
Subject: [PATCH 024/126] fix: get_dec_from_string( ) claimed to have read one
 byte of an out-of-range declination

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 543322e..b7dba3d 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -691,7 +691,7 @@ double get_dec_from_string( const char *buff, int *bytes_read)
          *bytes_read = 0;
       if( *buff == '-')
          rval = -rval;
-      if( n_fields)
+      if( *bytes_read)
          (*bytes_read)++;
       return( rval * PI / 180.);
       }
-- 
2.43.0


From a9ddfc0d8644b9cb80f77360d3079464a1ffd6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:52 +0000
Subject: [PATCH 025/126] fix: altitude of a point on the polar axis (e.g. the
 south pole) was measured from the equatorial radius

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index b7dba3d..6b04958 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -167,7 +167,7 @@ double point_to_ellipse( const double a, const double b,
       {
       lat = PI / 2.;
       if( dist)
-         *dist = fy - a;
+         *dist = fy - b;
       }
    else
       {
-- 
2.43.0


From 4d087e030206659e80c4165d2f6a8acd24a3fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:41 +0000
Subject: [PATCH 026/126] fix: rover sites on the equator or the Greenwich
 meridian were taken to be geocentric

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 6b04958..c2d5524 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -341,7 +341,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                   cinfo->lat = cinfo->lon = cinfo->alt = 0.;
                }
             cinfo->planet = rval;
-            if( cinfo->lat && cinfo->lon)   /* i.e.,  topocentric */
+            if( cinfo->lat || cinfo->lon)   /* i.e.,  topocentric */
                _set_parallax_constants( cinfo);
             }
          }
-- 
2.43.0


From 1071199b193a2fc63fd950fb6bada415088a7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:28 +0000
Subject: [PATCH 027/126] fix: orientation of orbits with inclinations near 90
 degrees lost digits, or all meaning at exactly 90

---
 astfuncs.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index cde9162..ae48628 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -93,24 +93,19 @@ to the direction of perihelion. */
 void setup_orbit_vectors( ELEMENTS DLLPTR *e)
 {
    const double sin_incl = sin( e->incl), cos_incl = cos( e->incl);
+   const double sin_node = sin( e->asc_node), cos_node = cos( e->asc_node);
+   const double sin_per = sin( e->arg_per), cos_per = cos( e->arg_per);
    double FAR *vec;
-   double vec_len;
    double up[3];
-   unsigned i;
 
    e->minor_to_major = sqrt( fabs( 1. - e->ecc * e->ecc));
    e->lon_per = e->asc_node + atan2( sin( e->arg_per) * cos_incl,
                                        cos( e->arg_per));
    vec = e->perih_vec;
 
-   vec[0] = cos( e->lon_per) * cos_incl;
-   vec[1] = sin( e->lon_per) * cos_incl;
-   vec[2] = sin_incl * sin( e->lon_per - e->asc_node);
-   vec_len = sqrt( cos_incl * cos_incl + vec[2] * vec[2]);
-   if( cos_incl < 0.)      /* for retrograde cases, make sure */
-      vec_len *= -1.;      /* 'vec' has correct orientation   */
-   for( i = 0; i < 3; i++)
-      vec[i] /= vec_len;
+   vec[0] = cos_node * cos_per - sin_node * sin_per * cos_incl;
+   vec[1] = sin_node * cos_per + cos_node * sin_per * cos_incl;
+   vec[2] = sin_incl * sin_per;
             /* 'up' is a vector perpendicular to the plane of the orbit */
    up[0] =  sin( e->asc_node) * sin_incl;
    up[1] = -cos( e->asc_node) * sin_incl;
-- 
2.43.0


From 59575337f23dbb2fb41ecd25c9d2e4a91ac6a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:51 +0000
Subject: [PATCH 028/126] fix: positions of parabolic comets well before
 perihelion lost precision

---
 astfuncs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index ae48628..2256b26 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -280,8 +280,10 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
       {
       double g = elem->w0 * t * .5;
 
-      y = CUBE_ROOT( g + sqrt( g * g + 1.));
+      y = CUBE_ROOT( fabs( g) + sqrt( g * g + 1.));
       true_anom = 2. * atan( y - 1. / y);
+      if( g < 0.)
+         true_anom = -true_anom;
       }
    else           /* got the mean anomaly;  compute eccentric,  then true */
       {
-- 
2.43.0


From 874b233979d52aaef6e4f23f0cd6be305dc8f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 029/126] fix: elements of orbits lying in the reference plane,
 or circular to within roundoff, were wrong; inclinations near 90 degrees lost
 half their digits

---
 classel.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/classel.cpp b/classel.cpp
index 8faad31..26bd2dd 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -131,19 +131,19 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
          elem->asc_node = 0.;  /* arbitrary choice h[0] = 0, h[1] = -epsilon */
       else
          elem->asc_node = atan2( h[0], -h[1]);
-      elem->incl = asine( n0 / h0);
-      if( h[2] < 0.)                   /* retrograde orbit */
-         elem->incl = PI - elem->incl;
+      elem->incl = atan2( n0, h[2]);
       }
    vector_cross_product( e, v, h);
    for( i = 0; i < 3; i++)
       e[i] = e[i] / elem->gm - r[i] / dist;
-   tval = dot_product( e, h) / h0;     /* "flatten" e vector into the rv */
+   tval = dot_product( e, h) / (h0 * h0);  /* "flatten" e vector into the rv */
    for( i = 0; i < 3; i++)             /* plane to avoid roundoff; see   */
       e[i] -= h[i] * tval;             /* above comments                 */
    ecc2 = dot_product( e, e);
    if( fabs( ecc2 - 1.) < 1.e-14)      /* avoid roundoff issues w/nearly */
       ecc2 = 1.;                       /* parabolic orbits               */
+   if( ecc2 < 1.e-30)                  /* e is then just roundoff,  and can */
+      ecc2 = 0.;                       /* point out of the orbit plane      */
    elem->minor_to_major = sqrt( fabs( 1. - ecc2));
    ecc = elem->ecc = sqrt( ecc2);
 
@@ -187,30 +187,22 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    vector_cross_product( elem->sideways, h, e);
    if( ref & 1)
       {
-      double cos_arg_per;
+      double cos_arg_per, sin_arg_per;
 
       if( n0)
+         {
          cos_arg_per = (h[0] * e[1] - h[1] * e[0]) / n0;
-      else
-         cos_arg_per = e[0];
-      if( cos_arg_per < .7 && cos_arg_per > -.7)
-         elem->arg_per = acos( cos_arg_per);
+         sin_arg_per = (e[2] * n0 * n0 - e[0] * h[0] * h[2] - e[1] * h[1] * h[2])
+                                            / (n0 * h0);
+         }
       else
          {
-         double sin_arg_per;
-
-         if( n0)
-            sin_arg_per = (e[0] * h[0] * h[2] + e[1] * h[1] * h[2] - e[2] * n0 * n0)
-                                            / (n0 * h0);
-         else
-            sin_arg_per = e[1] * h[2] / h0;
-
-         elem->arg_per = fabs( asin( sin_arg_per));
-         if( cos_arg_per < 0.)
-            elem->arg_per = PI - elem->arg_per;
+         cos_arg_per = e[0];
+         sin_arg_per = e[1] * h[2] / h0;
          }
-      if( e[2] < 0.)
-         elem->arg_per = PI + PI - elem->arg_per;
+      elem->arg_per = atan2( sin_arg_per, cos_arg_per);
+      if( elem->arg_per < 0.)
+         elem->arg_per += PI + PI;
       }
 
    if( inv_major_axis && elem->minor_to_major)
-- 
2.43.0


From 4010f0431c1528c443c8c44de8444eeabbcd9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:58 +0000
Subject: [PATCH 030/126] fix: perihelion time of a parabolic orbit computed at
 perihelion could be NaN

---
 classel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 26bd2dd..63ebade 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -253,7 +253,8 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
       {
       double tau;
 
-      tau = sqrt( dist / elem->q - 1.);
+      tau = dist / elem->q - 1.;
+      tau = (tau > 0. ? sqrt( tau) : 0.);    /* roundoff can make it negative */
       if( r_dot_v < 0.)
          tau = -tau;
       elem->w0 = (3. / SQRT_2) / (elem->q * sqrt( elem->q / elem->gm));
-- 
2.43.0


From a77d1e7577a18bc845cdf0ce4a765b60d58bc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:07 +0000
Subject: [PATCH 031/126] fix: positions for orbits within roundoff of a
 parabola could be off by a percent or more

---
 astfuncs.cpp | 25 +++++++++++++++----------
 classel.cpp  |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index 2256b26..d7d0d9f 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -98,7 +98,7 @@ void setup_orbit_vectors( ELEMENTS DLLPTR *e)
    double FAR *vec;
    double up[3];
 
-   e->minor_to_major = sqrt( fabs( 1. - e->ecc * e->ecc));
+   e->minor_to_major = sqrt( fabs( (1. - e->ecc) * (1. + e->ecc)));
    e->lon_per = e->asc_node + atan2( sin( e->arg_per) * cos_incl,
                                        cos( e->arg_per));
    vec = e->perih_vec;
@@ -157,7 +157,9 @@ E - e sin( E) = E - e( E - E^3/3! + E^5/5! - ...)
 quite rarely.  (I only encountered the problem because I had orbits
 that were supposed to be 'pure parabolic',  but due to roundoff,
 they had e = 1+/- epsilon,  with epsilon _very_ small.)  So 'near_parabolic'
-is only called if we've gone seven iterations without converging. */
+is only called if we've gone seven iterations without converging,  or
+if the eccentricity is so close to one that roundoff could lead us to think
+we've converged when we haven't. */
 
 static double near_parabolic( const double ecc_anom, const double e)
 {
@@ -188,6 +190,7 @@ double kepler( const double ecc, double mean_anom)
    double delta_curr = 1.;
    bool is_negative = false;
    unsigned n_iter = 0;
+   const bool cancellation = (fabs( 1. - ecc) < 1.e-5);
 
    if( !mean_anom)
       return( 0.);
@@ -249,7 +252,7 @@ double kepler( const double ecc, double mean_anom)
    if( ecc < 1.)
       while( fabs( delta_curr) > thresh)
          {
-         if( n_iter++ > MAX_ITERATIONS)
+         if( n_iter++ > MAX_ITERATIONS || cancellation)
             err = near_parabolic( curr, ecc) - mean_anom;
          else
             err = curr - ecc * sin( curr) - mean_anom;
@@ -260,7 +263,7 @@ double kepler( const double ecc, double mean_anom)
    else
       while( fabs( delta_curr) > thresh)
          {
-         if( n_iter++ > MAX_ITERATIONS && ecc < 1.01)
+         if( (n_iter++ > MAX_ITERATIONS && ecc < 1.01) || cancellation)
             err = -near_parabolic( curr, ecc) - mean_anom;
          else
             err = ecc * sinh( curr) - curr - mean_anom;
@@ -290,18 +293,20 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
       double ecc_anom;
 
       ecc_anom = kepler( elem->ecc, elem->mean_anomaly);
+               /* using half-angles avoids loss of precision for e near 1 */
       if( elem->ecc > 1.)     /* hyperbolic case */
          {
-         x = (elem->ecc - cosh( ecc_anom));
-         y = sinh( ecc_anom);
+         x = cosh( ecc_anom / 2.);
+         y = sinh( ecc_anom / 2.);
          }
       else           /* elliptical case */
          {
-         x = (cos( ecc_anom) - elem->ecc);
-         y =  sin( ecc_anom);
+         x = cos( ecc_anom / 2.);
+         y = sin( ecc_anom / 2.);
          }
-      y *= elem->minor_to_major;
-      true_anom = atan2( y, x);
+      x *= sqrt( fabs( 1. - elem->ecc));
+      y *= sqrt( 1. + elem->ecc);
+      true_anom = 2. * atan2( y, x);
       }
 
    r0 = elem->q * (1. + elem->ecc);
diff --git a/classel.cpp b/classel.cpp
index 63ebade..9855ed1 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -144,8 +144,8 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
       ecc2 = 1.;                       /* parabolic orbits               */
    if( ecc2 < 1.e-30)                  /* e is then just roundoff,  and can */
       ecc2 = 0.;                       /* point out of the orbit plane      */
-   elem->minor_to_major = sqrt( fabs( 1. - ecc2));
    ecc = elem->ecc = sqrt( ecc2);
+   elem->minor_to_major = sqrt( fabs( (1. - ecc) * (1. + ecc)));
 
    if( !ecc)                     /* for purely circular orbits,  e is */
       {                          /* arbitrary in the orbit plane; choose */
-- 
2.43.0


From 6e2dfcc63b9c389da6126341310502576cee12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:38 +0000
Subject: [PATCH 032/126] fix: asteroids with inclinations of 100 degrees or
 more were misread from astorb.dat

---
 mpcorb.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mpcorb.cpp b/mpcorb.cpp
index 160ec8a..24e39ac 100644
--- a/mpcorb.cpp
+++ b/mpcorb.cpp
@@ -122,13 +122,14 @@ long extract_mpcorb_dat( ELEMENTS *elem, const char *buff)
    extract_mpcorb_dat( ) function,  except using 'astorb.dat'-formatted
    data.       */
 
-static long extract_long( const char *ibuff)
+static long extract_long( const char *ibuff, const int field_width)
 {
    long rval = 0;
+   const char *end = ibuff + field_width;
 
-   while( *ibuff == ' ')      /* skip leading spaces */
+   while( ibuff < end && *ibuff == ' ')      /* skip leading spaces */
       ibuff++;
-   while( *ibuff != ' ')
+   while( ibuff < end && *ibuff != ' ')
       {
       if( *ibuff != '.')
          rval = rval * 10 + (long)( *ibuff - '0');
@@ -146,11 +147,11 @@ long extract_astorb_dat( ELEMENTS *elem, const char *buff)
        && sscanf( buff + 41, "%lf %lf", &telem.abs_mag, &telem.slope_param) == 2)
       {
       epoch_jd = atoi( buff + 106);
-      telem.mean_anomaly = (double)extract_long( buff + 115) / 1.e+6;
-      telem.arg_per      = (double)extract_long( buff + 126) / 1.e+6;
-      telem.asc_node     = (double)extract_long( buff + 137) / 1.e+6;
-      telem.incl         = (double)extract_long( buff + 148) / 1.e+6;
-      telem.ecc          = (double)extract_long( buff + 160) / 1.e+8;
+      telem.mean_anomaly = (double)extract_long( buff + 115, 10) / 1.e+6;
+      telem.arg_per      = (double)extract_long( buff + 126, 10) / 1.e+6;
+      telem.asc_node     = (double)extract_long( buff + 137, 10) / 1.e+6;
+      telem.incl         = (double)extract_long( buff + 147, 10) / 1.e+6;
+      telem.ecc          = (double)extract_long( buff + 160, 8) / 1.e+8;
       telem.major_axis = atof( buff + 169);
       epoch_jd = dmy_to_day( epoch_jd % 100L,           /* day */
                              (epoch_jd / 100L) % 100L,  /* month */
-- 
2.43.0


From 0007cfc36731dd95ea6451de35fc1eec081a6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:59 +0000
Subject: [PATCH 033/126] fix: mpc2sof wrote comets past the end of its buffer
 (or to a null pointer, with no asteroids)

---
 mpc2sof.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc2sof.cpp b/mpc2sof.cpp
index 4c72a89..056df81 100644
--- a/mpc2sof.cpp
+++ b/mpc2sof.cpp
@@ -211,8 +211,10 @@ int main( const int argc, const char **argv)
             strcat( tbuff, "           ");    /* rms, number obs */
             strcat( tbuff, "                                     \n");     /* Tlast, perts, H, G */
             assert( strlen( tbuff) == reclen);
-            memcpy( obuff + n_out * reclen, tbuff, reclen);
             n_out++;
+            if( IS_POWER_OF_TWO( n_out))
+               obuff = (char *)realloc( obuff, n_out * 2 * reclen);
+            memcpy( obuff + (n_out - 1) * reclen, tbuff, reclen);
             }
       fclose( ifile);
       }
-- 
2.43.0


From 3f08b85e2c9a8e5bc1da0d01ab1895b863def348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:37 +0000
Subject: [PATCH 034/126] fix: 'km' (and digits) cut off the perihelion
 distance when displaying elements to high precision

---
 showelem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/showelem.cpp b/showelem.cpp
index c24b5c3..bd853d5 100644
--- a/showelem.cpp
+++ b/showelem.cpp
@@ -214,7 +214,7 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
       show_formatted_dist( obuff + 1, (endptr - obuff) - 1, perihelion_dist, precision);
       for( i = (int)strlen( obuff); i < n_digits_to_show + 9; i++)
          obuff[i] = ' ';
-      obuff[n_digits_to_show + 9] = '\0';
+      obuff[i] = '\0';
       }
    else
       {
-- 
2.43.0


From bc653d905bf8d8ddb285620e2f38af3e82b516c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:27 +0000
Subject: [PATCH 035/126] fix: Brent minimization could converge on a point
 which isn't a minimum, or abort

---
 brentmin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brentmin.cpp b/brentmin.cpp
index f456e31..d8dd716 100644
--- a/brentmin.cpp
+++ b/brentmin.cpp
@@ -235,7 +235,7 @@ int brent_min_add( brent_min_t *b, const double next_y)
       else
          b->xmin = b->x[0];
       if( b->step_type == STEP_TYPE_GOLDEN)
-         b->gold_ratio = (1. + b->gold_ratio) / 2.;
+         b->gold_ratio = (PHI + b->gold_ratio) / 2.;
       }
    else                       /* no new minimum,  but the brackets can */
       {                       /* still be moved in */
@@ -244,7 +244,7 @@ int brent_min_add( brent_min_t *b, const double next_y)
       else
          b->xmax = b->next_x;
       if( b->step_type == STEP_TYPE_GOLDEN)
-         b->gold_ratio = (PHI + b->gold_ratio) / 2.;
+         b->gold_ratio = (1. + b->gold_ratio) / 2.;
       }
    b->n_iterations++;
    while( idx && next_y <= b->y[idx - 1])
-- 
2.43.0


From 6d7e0a4f097dd99dbc8efb259ec06d228689dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:27 +0000
Subject: [PATCH 036/126] fix: point_to_ellipse( ) gave NaN for points on the
 x-axis when the ellipse is a circle

---
 mpc_code.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index c2d5524..249478d 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -169,6 +169,12 @@ double point_to_ellipse( const double a, const double b,
       if( dist)
          *dist = fy - b;
       }
+   else if( a == b)        /* circle:  following can divide by zero */
+      {
+      lat = atan2( fy, fx);
+      if( dist)
+         *dist = sqrt( fx * fx + fy * fy) - a;
+      }
    else
       {
       const double c_squared = a * a - b * b;
-- 
2.43.0


From b818dfc8ed0b037a0fa3b5c34630e2d0ca4ce0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 037/126] fix: details of a MOID found at a node or first guess
 were those for perihelion

---
 moid.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/moid.cpp b/moid.cpp
index b82eeaa..a76534a 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -196,11 +196,15 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
    true_anomaly2 = true_anom_from_r( elem2, elem1->major_axis);
 // printf( "Nominal MOID true anom %f\n", true_anomaly2 * 180. / PI);
    least_dist_squared = find_point_moid_2( &idata, true_anomaly2);
+   min_true2 = true_anomaly2;
    if( true_anomaly2 && true_anomaly2 != PI)
       {
       dist_squared = find_point_moid_2( &idata, -true_anomaly2);
       if( least_dist_squared > dist_squared)
+         {
+         min_true2 = -true_anomaly2;
          least_dist_squared = dist_squared;
+         }
       }
    if( elem2->ecc < 1.)
    {
@@ -218,7 +222,10 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
          dist_squared = find_point_moid_2( &idata, pass * PI - arg_per);
 //       printf( "dist at node : %f\n", sqrt( dist_squared));
          if( dist_squared < least_dist_squared)
+            {
+            min_true2 = pass * PI - arg_per;
             least_dist_squared = dist_squared;
+            }
          }
    }
    for( pass = 0; pass < 2; pass++)
-- 
2.43.0


From 3496a5289e66972580ed3557afea00f5a4188ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 038/126] fix: setup_planet_elem( ) took Pluto's longitude of
 perihelion to be its argument of perihelion

---
 moid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moid.cpp b/moid.cpp
index a76534a..049ac3f 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -391,7 +391,7 @@ static const double planet_elem_rate[N_PLANET_RATES * 6] = {
    elem->asc_node = elem_array[3];
                /* For planets,  the longitude of perihelion is given. */
                /* For asteroids,  it's the argument of perihelion.    */
-   if( planet_idx < 9)
+   if( planet_idx <= N_PLANET_RATES)
       elem->arg_per = elem_array[4] - elem_array[3];
    else
       elem->arg_per = elem_array[4];
-- 
2.43.0


From 555ebc5cb90bbf947f9af90806ee2ad35e1ef498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 039/126] fix: precession matrices between two epochs, neither
 of them 2000, were composed in the wrong order

---
 precess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/precess.cpp b/precess.cpp
index 25138f2..a9a26b8 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -188,9 +188,9 @@ int DLL_FUNC setup_ecliptic_precession( double DLLPTR *matrix,
          setup_ecliptic_precession_from_j2000( tmatrix, year_to);
          for( i = 0; i < 3; i++)
             for( j = 0; j < 3; j++)
-               product[j + i * 3] = matrix[i * 3    ] * tmatrix[j]
-                                  + matrix[i * 3 + 1] * tmatrix[j + 3]
-                                  + matrix[i * 3 + 2] * tmatrix[j + 6];
+               product[j + i * 3] = tmatrix[i * 3    ] * matrix[j]
+                                  + tmatrix[i * 3 + 1] * matrix[j + 3]
+                                  + tmatrix[i * 3 + 2] * matrix[j + 6];
          memcpy( matrix, product, 9 * sizeof( double));
          }
       }
-- 
2.43.0


From 5e36061debdbd54a50e832f8a0b96519c24ec488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:21 +0000
Subject: [PATCH 040/126] fix: azimuths for observers at the poles ran the
 wrong way (or from the wrong point)

---
 alt_az.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 10078de..b69b71f 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -35,7 +35,7 @@ static void ra_dec_to_alt_az( const double hr_ang, const double dec,
 
    *alt = asine( sin( lat) * sin( dec) + cos_lat * cos( dec) * cos( hr_ang));
    if( cos_lat < .00001)         /* polar case */
-      *az = hr_ang;
+      *az = (lat > 0. ? -hr_ang : (hr_ang > 0. ? hr_ang - PI : hr_ang + PI));
    else
       {
       temp = (sin( dec) - sin( *alt) * sin( lat)) / (cos( *alt) * cos_lat);
@@ -99,7 +99,7 @@ static void alt_az_to_ra_dec( double alt, double az,
    sin_dec = sin( lat) * sin( alt) + cos_lat * cos( alt) * cos( az);
    *dec = asine( sin_dec);
    if( cos_lat < .00001)         /* polar case */
-      *hr_ang = az + PI;
+      *hr_ang = (lat > 0. ? PI - az : az);
    else
       {
       temp = cos_lat * cos( *dec);
-- 
2.43.0


From f923a99b2667dcba7f88308cc50a381776e5ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:21 +0000
Subject: [PATCH 041/126] fix: full_alt_az_to_ra_dec( ) ignored nutation, so
 wasn't the inverse of full_ra_dec_to_alt_az( )

---
 alt_az.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index b69b71f..10d5cec 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -116,12 +116,15 @@ void DLL_FUNC full_alt_az_to_ra_dec( DPT DLLPTR *ra_dec,
                               const DPT DLLPTR *alt_az,
                               const double jd_utc, const DPT DLLPTR *latlon)
 {
-   double hr_ang, ra;
+   double hr_ang, ra, nutation_lon;
+   const double cos_obliq_2000 = 0.917482062069181825744000384639406458043;
    DPT tmp;
 
    alt_az_to_ra_dec( alt_az->y, alt_az->x, &hr_ang,
                                          &tmp.y, latlon->y);
-   ra = hr_ang + green_sidereal_time( jd_utc) + latlon->x;
+   nutation( (jd_utc - J2000) / 36525., &nutation_lon, NULL);
+   ra = hr_ang + green_sidereal_time( jd_utc) + latlon->x
+               + cos_obliq_2000 * nutation_lon * (PI / 180.) / 3600.;
    tmp.x = fmod( -ra, TWO_PI);
    precess_pt( ra_dec, &tmp, 2000. + (jd_utc - J2000) / 365.25, 2000.);
 }
-- 
2.43.0


From 5b952a41d11bff0a9c063032515e0fa509bdcac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:59 +0000
Subject: [PATCH 042/126] fix: constellations for negative RAs were off by up
 to a second of RA, and wrong for RAs below -3600 degrees

---
 conbound.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conbound.c b/conbound.c
index d94f729..f708329 100644
--- a/conbound.c
+++ b/conbound.c
@@ -1,4 +1,5 @@
 #include <string.h>
+#include <math.h>
 #include <stdint.h>
 #include "watdefs.h"
 #include "afuncs.h"
@@ -377,7 +378,8 @@ int DLL_FUNC constell_from_ra_dec( const double ra_degrees_1875,
                                    const double dec_degrees_1875,
                                    char DLLPTR *constell_name)
 {
-   const int32_t ra = ((int32_t)(ra_degrees_1875 * 240.) + 864000) % 86400;
+   const double ra_secs = fmod( ra_degrees_1875 * 240., 86400.);
+   const int32_t ra = (int32_t)( ra_secs < 0. ? ra_secs + 86400. : ra_secs) % 86400;
    const int16_t spd = (int16_t)( (dec_degrees_1875 + 90.) * 60.);
    int idx = -1, step = 512;
    int rval = -1;
-- 
2.43.0


From 3b7199c7a8db66c051a2733d5dcaee06dbe28b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:22 +0000
Subject: [PATCH 043/126] fix: Vincenty distances had the wrong third-order
 term, and could be off by a centimeter

---
 dist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist.cpp b/dist.cpp
index f91f031..45c1bbf 100644
--- a/dist.cpp
+++ b/dist.cpp
@@ -361,7 +361,7 @@ double vincenty_earth_dist( const double lat1, const double lon1,
    const double delta_o = big_b * sin_o *
               (cos_2om + (big_b / 4.) * (cos_o * temp3
             - (big_b / 6.) * cos_2om * (-3 + 4 * sin_o * sin_o)
-            * (-3. + 4. * cos_o * cos_o)));
+            * (-3. + 4. * cos_2om * cos_2om)));
    const double rval = b * big_a_poly( usquared) * (o - delta_o);
    if( azimuth)
       {
-- 
2.43.0


From 2a27f8cdce97d4d14ad33afd777142041ee4d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:55 +0000
Subject: [PATCH 044/126] fix: Vincenty distances to (nearly) antipodal points
 could be off by tens of centimeters

---
 dist.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dist.cpp b/dist.cpp
index 45c1bbf..118e0e5 100644
--- a/dist.cpp
+++ b/dist.cpp
@@ -354,7 +354,8 @@ double vincenty_earth_dist( const double lat1, const double lon1,
          }
       iter++;
       }
-   while( fabs( delta_lambda) > tolerance && iter < max_iter);
+   while( fabs( delta_lambda) > (cos_o < 0. ? tolerance * sin_o : tolerance)
+                     && iter < max_iter);
 
    const double usquared = cos2_a * (1.-b*b) / (b*b);
    const double big_b = big_b_poly( usquared);
-- 
2.43.0


From f3d6cee001bba1de2713c622a576f4adf7d58634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:55 +0000
Subject: [PATCH 045/126] fix: Andoyer's formula gave NaN for the distance
 between identical points

---
 dist.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dist.cpp b/dist.cpp
index 118e0e5..af93b26 100644
--- a/dist.cpp
+++ b/dist.cpp
@@ -83,6 +83,9 @@ double earth_dist( const double lat1, const double lon1,
    const double s = sin_g2 * cos_lambda2 + cos_f2 * sin_lambda2;
    const double c = cos_g2 * cos_lambda2 + sin_f2 * sin_lambda2;
    const double omega = atan( sqrt( s / c));
+
+   if( s == 0.)            /* points are identical */
+      return( 0.);
    const double r = sqrt( s * c) / omega;
    const double d = 2. * omega;
    const double h1 = (3. * r - 1.) / (2. * c);
-- 
2.43.0


From ba7e08df221883918fcc985483be17e95680395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 046/126] fix: Mars' pole RA ignored its rate and periodic
 terms, due to a non-ASCII minus sign

---
 cospar.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.txt b/cospar.txt
index c463622..eb85ced 100644
--- a/cospar.txt
+++ b/cospar.txt
@@ -141,7 +141,7 @@ Obj: 4002 # Deimos (s)
 
 Obj: 4 # Mars
    r=3396.19,3376.20
-   a0= 317.269202 − 0.10927547T + 0.419057 sin M11
+   a0= 317.269202 - 0.10927547T + 0.419057 sin M11
    d0= 54.432516 - 0.05827105T + 1.591274 cos M12
    W= 176.049863 + 350.891982443297d + 0.584542 sin M13   # (c) See 2018 Jul 17 comments
 
-- 
2.43.0


From 4b8aa795613d755e8831fd5cb1adf9877066dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 047/126] fix: Naiad's pole declination used the wrong multiple
 of its angular argument

---
 cospar.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.txt b/cospar.txt
index eb85ced..3c41dc9 100644
--- a/cospar.txt
+++ b/cospar.txt
@@ -445,7 +445,7 @@ Obj: 8 # Neptune
 Obj: 8003 # III Naiad
    r=29
    a0=299.36 +0.70 sin N0 -6.49 sin N1 +0.25 sin 2N1
-   d0=43.36 -0.51 cos N0 -4.75 cos 2N1 +0.09 cos 2N1
+   d0=43.36 -0.51 cos N0 -4.75 cos N1 +0.09 cos 2N1
    W=254.06 +1222.8441209d -0.48 sin N0 +4.40 sin N1 -0.27 sin 2N1
 
 Obj: 8004 # IV Thalassa
-- 
2.43.0


From cda99d3c4b1d4865131b6cac16bba46282aca07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 048/126] fix: Tethys' intermediate radius was off by 100 km

---
 cospar.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.txt b/cospar.txt
index 3c41dc9..752975d 100644
--- a/cospar.txt
+++ b/cospar.txt
@@ -261,7 +261,7 @@ Obj: 6002 # II Enceladus
    W=2.82   +262.7318996d     # (e)
 
 Obj: 6003 # III Tethys
-   r=538.4,428.3,526.3
+   r=538.4,528.3,526.3
    a0=40.66   -0.036T   +9.66 sin S4
    d0=83.52   -0.004T   -1.09 cos S4
    W=10.45   +190.6979085d   -9.60 sin S4  +2.23 sin S5    # (f)
-- 
2.43.0


From 7b173a872071adf48421be1cb78b9dfa1acec5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 049/126] fix: the last object in cospar.txt was never found

---
 cospar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index b5ffb1b..63dc913 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -264,6 +264,8 @@ static int get_cospar_data_from_text_file( int object_number,
             }
          }
       }
+   if( curr_obj_from_file == object_number)
+      done = 1;               /* last object in the file */
    if( !err)
       if( !done)    /* never did find the object... fill with  */
          {          /* semi-random values and signal an error: */
-- 
2.43.0


From b85e1f484faea19b8ffe44234d79b1a88168bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 050/126] fix: planet_radii( ) left the radii unset if it was
 the first to need cospar.txt

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index 63dc913..99329f5 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -122,7 +122,7 @@ static int get_cospar_data_from_text_file( int object_number,
          }
       cospar_text[line] = NULL;
       fclose( ifile);
-      if( !omega)        /* just loading coefficients;  not actually */
+      if( !omega && !radii)   /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
       }                    /* load_cospar_file( ) below)               */
    *is_retrograde = false;
-- 
2.43.0


From 6c016e1d9730790d9a54d32a53e23dacdaf3ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 051/126] fix: planet orientations and rotation rates were not
 recomputed after load_cospar_file( )

---
 cospar.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 99329f5..87a1e9d 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -33,6 +33,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #define PLANET_SELECTED          -99998
 
 const char *cospar_filename = "cospar.txt";
+static int n_cospar_loads = 0;      /* used to flag cached data as obsolete */
 
 /* Mostly complete code to compute COSPAR planetary,  satellite,  and
 asteroid orientations using data extracted from 'cospar.txt'.  Thus far,
@@ -293,6 +294,7 @@ int DLL_FUNC load_cospar_file( const char *filename)
    int rval, pass;
 
    cospar_filename = filename;
+   n_cospar_loads++;
    for( pass = 0; pass < (filename ? 2 : 1); pass++)
       rval = get_cospar_data_from_text_file( (pass ? 0 : FREE_INTERNAL_DATA),
                     0, 0., NULL, NULL, NULL, NULL, NULL);
@@ -304,10 +306,11 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
 {
    const double dummy_tdt = 2451545.;     /* not really used */
    bool is_retrograde;
-   static int prev_planet_no = -99, prev_system_no;
+   static int prev_planet_no = -99, prev_system_no, prev_load = 0;
    static double omega;
 
-   if( planet_no != prev_planet_no || system_no != prev_system_no)
+   if( planet_no != prev_planet_no || system_no != prev_system_no
+                           || prev_load != n_cospar_loads)
       {
       const int rval = get_cospar_data_from_text_file( planet_no, system_no,
               dummy_tdt, NULL, NULL, &omega, NULL, &is_retrograde);
@@ -316,6 +319,7 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
          omega = 0.;
       prev_planet_no = planet_no;
       prev_system_no = system_no;
+      prev_load = n_cospar_loads;
       }
    return( omega);
 }
@@ -351,6 +355,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
 {
    static int prev_planet_no = NO_OBJECT_SELECTED;
    static int prev_system_no = NO_OBJECT_SELECTED, prev_rval = 0;
+   static int prev_load = 0;
    static double prev_jd = -1.;
    static double prev_matrix[9];
    int i, rval;
@@ -358,7 +363,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
    double pole_ra, pole_dec, omega, tdt;
 
    if( planet_no == prev_planet_no && system_no == prev_system_no
-                           && jd == prev_jd)
+                           && jd == prev_jd && prev_load == n_cospar_loads)
       {
       memcpy( matrix, prev_matrix, 9 * sizeof( double));
       return( prev_rval);
@@ -367,6 +372,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
    prev_planet_no = planet_no;
    prev_system_no = system_no;
    prev_jd = jd;
+   prev_load = n_cospar_loads;
    tdt = jd + td_minus_ut( jd) / seconds_per_day;
 
    if( planet_no == 3)        /* handle earth with "normal" precession: */
-- 
2.43.0


From 8f435a90e3a4183ab6573f3f2ec3249446924d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:23 +0000
Subject: [PATCH 052/126] fix: lines of spaces (or an indented comment) in
 cospar.txt could shift the angular arguments

---
 cospar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index 87a1e9d..fae40c6 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -93,6 +93,8 @@ static int get_cospar_data_from_text_file( int object_number,
             {
             for( i = 0; buff[i] >= ' ' && buff[i] != '#'; i++)
                ;
+            while( i && buff[i - 1] == ' ')     /* ignore trailing spaces */
+               i--;
             if( i)      /* yes,  it's a for-real line */
                {
                int j;
-- 
2.43.0


From ce9d8477bc975be8296694f8cc2836a8cd21e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:58 +0000
Subject: [PATCH 053/126] fix: last MJD for EOP files lacking data-free lines
 at the end was off by a day

---
 eop_prec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index fae169f..9fe154d 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -170,8 +170,8 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             rval = EOP_FILE_WRONG_FORMAT;           /* this many lines */
          if( rval)   /* slightly tricky method to free up eop_data,  if */
             load_earth_orientation_params( NULL, NULL);  /* it's been alloced */
-         else                            /* get MJD for preceding day */
-            rval = atoi( buff + 7) - 1;
+         else                            /* get MJD for last day with data */
+            rval = (int)( eop_jd0 - 2400000.499) + eop_usable - 1;
          }
       if( ifile)
          fclose( ifile);
-- 
2.43.0


From ffc7ed72533f433d0f01a629d5f55fd501b2e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:58 +0000
Subject: [PATCH 054/126] fix: get_earth_orientation_params( ) wrote to a NULL
 pointer if params were omitted

---
 eop_prec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index 9fe154d..099b1c6 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -197,9 +197,11 @@ int DLL_FUNC get_earth_orientation_params( const double jd,
    int i, rval = 0;
    double results[5];
 
+   if( !params)
+      return( -1);
    for( i = 0; i < 5; i++)
       results[i] = 0.;
-   if( eop_data && params)
+   if( eop_data)
       {
       const double dt = jd - eop_jd0;
 
-- 
2.43.0


From 4ee7f9e2b715b2a610298b70869c4cb9031f05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:58 +0000
Subject: [PATCH 055/126] fix: lower-case hex digits in URL-encoded form data
 weren't decoded

---
 cgi_func.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 6d95d16..a0c4a21 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -129,6 +129,8 @@ static int get_urlencoded_piece( const char **idata,
                c += c1 - '0';
             else if( c1 >= 'A' && c1 <= 'F')
                c += c1 - 'A' + 10;
+            else if( c1 >= 'a' && c1 <= 'f')
+               c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
                return( -1);         /* not supposed to happen */
             }
-- 
2.43.0


From d415d690ea22959c9b2a1dfcd413520833fc613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:58 +0000
Subject: [PATCH 056/126] fix: a malformed %-escape in form data was taken to
 be valid,  with an unterminated string

---
 cgi_func.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index a0c4a21..dd34806 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -105,6 +105,8 @@ void avoid_runaway_process( const int max_time_to_run)
 }
 #endif         /* _WIN32 */
 
+#define BAD_ESCAPE      -999
+
 static int get_urlencoded_piece( const char **idata,
               char *buff, size_t max_buff, const char end_char)
 {
@@ -132,7 +134,10 @@ static int get_urlencoded_piece( const char **idata,
             else if( c1 >= 'a' && c1 <= 'f')
                c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
-               return( -1);         /* not supposed to happen */
+               {                    /* not supposed to happen */
+               *buff = '\0';
+               return( BAD_ESCAPE);
+               }
             }
          }
       *buff++ = (char)c;
@@ -153,6 +158,8 @@ int get_urlencoded_form_data( const char **idata,
    if( get_urlencoded_piece( idata, field, max_field, '=') != '=')
       return( -1);
    c = get_urlencoded_piece( idata, buff, max_buff, '&');
+   if( c == BAD_ESCAPE)
+      return( -1);
    return( c != '&' && c > 13);
 }
 
-- 
2.43.0


From 986edd000fcd4b216f12bbe46403833474d7f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:58 +0000
Subject: [PATCH 057/126] fix: reads past the end of CGI form data and content
 types

---
 cgi_func.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index dd34806..83310db 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -197,7 +197,7 @@ int get_multipart_form_data( const char *boundary, char *field,
             return( OVERRUN);
          while( bytes_read < max_len - 1 &&
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
-                 && memcmp( buff + bytes_read, boundary, blen))
+                 && strncmp( buff + bytes_read, boundary, blen))
             bytes_read += strlen( buff + bytes_read);
          }
       }
@@ -259,9 +259,9 @@ int initialize_cgi_reading( void)
 
       if( !eptr)
          return( -1);
-      if( !memcmp( eptr, "application/x-www-form-urlencoded", 33))
+      if( !strncmp( eptr, "application/x-www-form-urlencoded", 33))
          method = METHOD_PUT_URL;
-      else if( !memcmp( eptr, "multipart/form-data;", 20))
+      else if( !strncmp( eptr, "multipart/form-data;", 20))
          method = METHOD_PUT_MULTIPART;
       else
          return( -2);
-- 
2.43.0


From c85b0414ef961b25c6181593dd2790814e92a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:16 +0000
Subject: [PATCH 058/126] fix: uploaded files started with a spurious blank
 line

---
 cgi_func.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 83310db..1a573a8 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -191,10 +191,13 @@ int get_multipart_form_data( const char *boundary, char *field,
          *endptr = '\0';
          strcpy( filename, filename_ptr + 10);
          }
-      if( fgets( buff, (int)max_len, stdin))
-         {
+               /* skip other headers,  e.g. 'Content-Type',  and a blank line : */
+      while( (tptr = fgets( buff, (int)max_len, stdin)) != NULL
+                     && *buff != 10 && *buff != 13)
          if( strlen( buff) == max_len - 1)
             return( OVERRUN);
+      if( tptr)
+         {
          while( bytes_read < max_len - 1 &&
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
                  && strncmp( buff + bytes_read, boundary, blen))
-- 
2.43.0


From 3a6f2bc082f44705a77e9d84e632c836affc9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:16 +0000
Subject: [PATCH 059/126] fix: long field names in multipart form data overran
 the (30-byte) field buffer

---
 cgi_func.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 1a573a8..760868d 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -164,6 +164,7 @@ int get_urlencoded_form_data( const char **idata,
 }
 
 #define OVERRUN         -3
+#define MAX_CGI_FIELD   30
 
 int get_multipart_form_data( const char *boundary, char *field,
                 char *buff, char *filename, const size_t max_len)
@@ -184,6 +185,8 @@ int get_multipart_form_data( const char *boundary, char *field,
       if( strlen( buff) == max_len - 1)
          return( OVERRUN);
       *endptr = '\0';
+      if( strlen( tptr + 6) >= MAX_CGI_FIELD)
+         return( OVERRUN);
       strcpy( field, tptr + 6);
       if( filename && filename_ptr
              && (endptr = strchr( filename_ptr + 10, '"')) != NULL)
@@ -289,7 +292,7 @@ int initialize_cgi_reading( void)
 int get_cgi_data( char *field, char *data, char *filename, const size_t max_data)
 {
    int rval;
-   const size_t max_field = 30;
+   const size_t max_field = MAX_CGI_FIELD;
 
    switch( method)
       {
-- 
2.43.0


From a5c70b7acc846fad742210b4dc333795db437b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 060/126] fix: matching of ADES tags read past the ends of the
 tag names

---
 ades2mpc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 06ec766..126c9fb 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -310,10 +310,10 @@ static int find_tag( const char *buff, size_t len)
       buff++;
       len--;
       }
-   if( !memcmp( buff, "ades", 4))
+   if( !strncmp( buff, "ades", 4))
       rval = 0;
    for( i = 0; tags[i] && rval == -1; i++)
-      if( !memcmp( tags[i], buff, len) && !tags[i][len])
+      if( !strncmp( tags[i], buff, len) && strlen( tags[i]) == len)
          rval = i + 1;
    return( rval);
 }
-- 
2.43.0


From ebdb237a91ae8196f2f78dcb02689d3993428ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 061/126] fix: correlations and mag/time uncertainties from one
 ADES observation could turn up in later ones

---
 ades2mpc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 126c9fb..83c6640 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -933,6 +933,8 @@ static void setup_observation( ades2mpc_t *cptr)
    cptr->id_set = 0;
    cptr->spacecraft_center = 399;      /* default to geocentric */
    cptr->full_t2k = NOT_A_VALID_TIME;
+   cptr->rms_ra[0] = cptr->rms_dec[0] = cptr->corr[0] = '\0';
+   cptr->rms_mag[0] = cptr->rms_time[0] = '\0';
 }
 
 /* The following checks to see if the input is astrometry with "Dave
-- 
2.43.0


From 558a81cfc79695b10f871580796211142c26ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 062/126] fix: ADES times given to high precision overwrote the
 RA

---
 ades2mpc.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 83c6640..873b7e7 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -376,25 +376,27 @@ static inline void pack_mpc_reference( char *packed, const char *ref)
 
 static inline size_t move_fits_time( char *optr, const char *iptr)
 {
-   char *optr0 = optr;
+   size_t rval = 0;
 
-   if( iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
+   if( strlen( iptr) > 13 && iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
                && iptr[13] == ':')
       {
       const int century = iptr[0] * 10 + iptr[1] - '0' * 11;
 
-      *optr++ = int_to_mutant_hex_char( century);
+      optr[rval++] = int_to_mutant_hex_char( century);
       iptr += 2;
       while( *iptr && *iptr != 'Z')
          {
-         if( *iptr >= '0' && *iptr <= '9')
-            *optr++ = *iptr;
-         else if( *iptr == 'T')
-            *optr++ = ':';
+         if( (*iptr >= '0' && *iptr <= '9') || *iptr == 'T')
+            {
+            if( rval < 17)         /* don't run past the date field */
+               optr[rval] = (*iptr == 'T' ? ':' : *iptr);
+            rval++;
+            }
          iptr++;
          }
       }
-   return( optr - optr0);
+   return( rval);
 }
 
 static inline int place_value( char *optr, const char *iptr, const size_t ilen,
-- 
2.43.0


From 3850766238cfbb793fa23886c7788ea0e7bcb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 063/126] fix: ADES values of 40 or more bytes could be used
 uninitialized

---
 ades2mpc.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 873b7e7..350f09c 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -553,11 +553,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
 
    assert( obuff);
    *obuff = '\0';
-   if( len < sizeof( name))
-      {
-      memcpy( name, tptr, len);
-      name[len] = '\0';
-      }
+   strlcpy( name, tptr, len < sizeof( name) ? len + 1 : sizeof( name));
    switch( itag)
       {
       case ADES_mpcCode:
@@ -607,7 +603,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          {
          const bool too_far_in_future = (atoi( tptr) > 2099);
 
-         if( move_fits_time( cptr->line + 15, tptr) > 17 || too_far_in_future)
+         if( move_fits_time( cptr->line + 15, name) > 17 || too_far_in_future)
             {
             char *zptr = strchr( name, 'Z');
 
-- 
2.43.0


From 4c3f5aec333bedf75dedf1bf48959357d22227cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 064/126] fix: RA/decs of 26 or more digits in ADES data
 overran their buffers

---
 ades2mpc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 350f09c..8fcbc77 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -790,8 +790,8 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             }
          if( place_value( cptr->line + 32, tptr, len, 3))
             {
-            memcpy( cptr->full_ra, tptr, len);     /* 'overlong' RA */
-            cptr->full_ra[len] = '\0';
+            strlcpy( cptr->full_ra, tptr,          /* 'overlong' RA */
+                     len < PIECE_SIZE ? len + 1 : PIECE_SIZE);
             }
          break;
       case ADES_dec:
@@ -805,8 +805,8 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          if( place_value( cptr->line + 45, tptr, len, 2))
             {              /* 'overlong' dec */
             cptr->full_dec[0] = cptr->line[44];
-            memcpy( cptr->full_dec + 1, tptr, len);
-            cptr->full_dec[len + 1] = '\0';
+            strlcpy( cptr->full_dec + 1, tptr,
+                     len < PIECE_SIZE - 1 ? len + 1 : PIECE_SIZE - 1);
             }
          break;
       case ADES_astCat:
-- 
2.43.0


From 764393b469506d6d230ea36c2da5b1522dc39126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 065/126] fix: ADES spacecraft offsets could overrun the next
 field;  integer offsets (and rover coordinates) weren't handled

---
 ades2mpc.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 8fcbc77..adb3074 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -727,8 +727,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                *name = '+';
                }
             cptr->line2[sign_loc] = *name;
-            tptr2 = strchr( name, '.');
-            assert( tptr2);
+            tptr2 = name + strcspn( name, ".");
             if( cptr->line2[32] == '1')
                {
                decimal_loc = sign_loc + 6;
@@ -752,14 +751,17 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                }
             if( decimal_loc)
                {
+               int max_len;        /* don't run into the next field */
+
                decimal_loc -= (int)(tptr2 - name);
+               max_len = sign_loc + 10 - decimal_loc;
                memcpy( &cptr->line2[decimal_loc + 1], name + 1,
-                                           (nlen > 11 ? 10 : nlen - 1));
+                           (nlen - 1 > max_len ? max_len : nlen - 1));
                }
             }
          else               /* roving observer */
             {
-            char *tptr2 = strchr( name, '.');
+            char *tptr2 = name + strcspn( name, ".");
             size_t loc;
 
             if( itag == ADES_pos1)     /* East longitude */
-- 
2.43.0


From a8c813c3a025c4811d49c1dd6582b4fcbbd20fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 066/126] fix: malformed ADES tags resulted in endless output

---
 ades2mpc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index adb3074..1c20d2f 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1259,8 +1259,10 @@ int fgets_with_ades_xlation( char *buff, const size_t len,
    ades2mpc_t *cptr = (ades2mpc_t *)ades_context;
    int prev_rval = cptr->prev_rval;
 
-   if( prev_rval)
+   if( prev_rval > 0)
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
+   else           /* either no more output,  or an error;  get next line */
+      prev_rval = 0;
    while( !prev_rval && fgets_trimmed( buff, (int)len, ifile))
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
    while( *buff && *buff != 10 && *buff != 13)
-- 
2.43.0


From fcf2cb9571f7c2701ebe3ddb078d1ff317afa50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:14 +0000
Subject: [PATCH 067/126] fix: ADES tags closed without being opened,  or
 nested more than 20 deep,  wrote outside the tag array

---
 ades2mpc.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 1c20d2f..ac2cebe 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1178,15 +1178,19 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
                {
                if( tptr[1] == '/')
                   {
-                  cptr->depth--;
-                  if( cptr->depth < 0 || cptr->tags[cptr->depth] != tag_idx)
+                  if( cptr->depth)
+                     cptr->depth--;
+                  else
+                     rval = ADES_CLOSING_UNOPENED_TAG;
+                  if( cptr->tags[cptr->depth] != tag_idx)
                      rval = ADES_CLOSING_UNOPENED_TAG;
                   }
                else
                   {
-                  cptr->tags[cptr->depth++] = tag_idx;
                   if( cptr->depth == MAX_DEPTH)
                      rval = ADES_DEPTH_MAX;
+                  else
+                     cptr->tags[cptr->depth++] = tag_idx;
                   }
                if( tag_idx == ADES_optical)
                   {
-- 
2.43.0


From 2dda7aee1d99df537e793664567e4057635e9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:37 +0000
Subject: [PATCH 068/126] fix: control characters within ADES XML caused an
 endless loop

---
 ades2mpc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index ac2cebe..cfd0a23 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1206,13 +1206,15 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
       else if( cptr->depth)
          {
          const int itag = cptr->tags[cptr->depth - 1];
+         const char *next_tag;
 
          while( tptr[len] && tptr[len] != '<')
             len++;
+         next_tag = tptr + len;
          while( len && (unsigned char)tptr[len - 1] <= ' ')
             len--;
          rval = process_ades_tag( obuff, cptr, itag, tptr, len);
-         tptr += len;
+         tptr = next_tag;
          }
       else
          return rval;
-- 
2.43.0


From 15e8cd4432453bb17b935f5a401c084477d3c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:35 +0000
Subject: [PATCH 069/126] fix: ADES XML header data not on the same line as its
 tags was output endlessly

---
 ades2mpc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index cfd0a23..3150a10 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1222,6 +1222,8 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
       }
    if( rval)
       get_a_line( obuff, obuff_size, cptr);
+   if( rval > 0 && !cptr->getting_lines)     /* header data;  already output */
+      cptr->prev_line_passed_through = 1;
    if( orig_obuff)
       strlcpy_err( orig_obuff, temp_obuff, obuff_size);
    return( rval);
-- 
2.43.0


From 98031057f4178488910820010ea37199d32ba1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 070/126] fix: time strings such as '2020-01-01 foo c' caused
 an endless loop

---
 get_time.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 53e3652..5bfe6fd 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -150,17 +150,21 @@ static inline long double collect_time_offset( char *istr)
          while( len >= 0 && istr[len] != '-' && istr[len] != '+')
             len--;
          if( len >= 0)         /* we found something... */
+            {
             if( sscanf( istr + len, "%Lf %c%n", &rval, &unused_char,
-                                    &bytes_scanned) == 2)
-               if( !istr[len + bytes_scanned])
-                  {
-                  for( i = 0; symbols[i]; i++)
-                     if( ending_char == symbols[i])
-                        rval *= scales[i];
-                  while( len && istr[len - 1] == ' ')
-                     len--;
-                  istr[len] = '\0';
-                  }
+                                    &bytes_scanned) == 2
+                        && !istr[len + bytes_scanned])
+               {
+               for( i = 0; symbols[i]; i++)
+                  if( ending_char == symbols[i])
+                     rval *= scales[i];
+               while( len && istr[len - 1] == ' ')
+                  len--;
+               istr[len] = '\0';
+               }
+            else        /* ...but it isn't a time offset */
+               rval = 0.;
+            }
          }
       else if( *istr == '-' || *istr == '+')  /* just add/subtract N days: */
          {
-- 
2.43.0


From fb2793c54d98fe66eda3e92735891e97525b0eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:01 +0000
Subject: [PATCH 071/126] fix: overlong positions and numbers in ADES data
 overran buffers

---
 ades2mpc.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 3150a10..5a35737 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -702,7 +702,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          if( cptr->line[14] == 'S')    /* satellite offset */
             {
             const int sign_loc = 34 + (itag - ADES_pos1) * 12;
-            int nlen = (int)len, decimal_loc = 0;
+            int nlen, decimal_loc = 0;
             char *tptr2;
 
             if( cptr->line2[32] == '2')
@@ -718,8 +718,10 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             if( strchr( name, 'e') || strchr( name, 'E'))
                {
                snprintf_err( name, sizeof( name), "%.13f", atof( name));
-               nlen = 12;
+               name[12] = '\0';
                }
+            name[sizeof( name) - 2] = '\0';      /* leave room for a sign */
+            nlen = (int)strlen( name);
             if( *name != '+' && *name != '-')   /* no sign provided; */
                {                             /* insert one */
                nlen++;
@@ -764,6 +766,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             char *tptr2 = name + strcspn( name, ".");
             size_t loc;
 
+            len = strlen( name);
             if( itag == ADES_pos1)     /* East longitude */
                loc = 37 - (tptr2 - name);
             else if( itag == ADES_pos2)
@@ -781,7 +784,13 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                }
             else           /* altitude */
                loc = 61 - len;
-            memcpy( cptr->line2 + loc, name, len);
+            if( loc >= 34 && loc + len <= 61)
+               memcpy( cptr->line2 + loc, name, len);
+            else
+               {
+               strlcpy_err( obuff, "Bad posn data\n", obuff_size);
+               rval = 1;
+               }
             }
          break;
       case ADES_ra:
@@ -852,7 +861,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          assert( len < sizeof( name));
          while( isdigit( name[i]))
             i++;
-         if( !name[i])        /* simple numbered object,  desig is nothing but */
+         if( !name[i] && i < 20)     /* simple numbered object,  desig is nothing but */
             {                 /* digits : put parentheses around it */
             memmove( name + 1, name, i);
             name[0] = '(';
-- 
2.43.0


From 9ea298fa5e9cd7c2dd10935f0e3f9a0f3250c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 072/126] fix: absurdly large numbers in designations
 overflowed,  and could be taken to be small ones

---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 9ea8fce..aa646aa 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -53,7 +53,11 @@ static inline int quick_atoi( const char *iptr)
    int rval = 0;
 
    while( *iptr >= '0' && *iptr <= '9')
-      rval = (rval * 10) + (*iptr++ - '0');
+      {
+      if( rval < 100000000)      /* avoid overflows */
+         rval = (rval * 10) + (*iptr - '0');
+      iptr++;
+      }
    return( rval);
 }
 
@@ -802,7 +806,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
          packed_desig[11] = '0';
 
       sub_designator = quick_atoi( obj_name + i);
-      if( sub_designator >= 0 && number < 6200)
+      if( sub_designator >= 0 && sub_designator < 10000000 && number < 6200)
          {
          if( sub_designator < 620)
             {
-- 
2.43.0


From 501d35562a0af15f6bc864381d06a54dbbbfef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:19 +0000
Subject: [PATCH 073/126] fix: large numbers of hours overflowed in time
 strings

---
 get_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 5bfe6fd..a9ef71d 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -903,7 +903,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
    dday -= (long double)iday;
    int_rval = dmy_to_day( iday, month, year, calendar) - 2451545;
    rval = (long double)int_rval + dday -.5 +
-                 (long double)( hour * minutes_per_hour + minute) / minutes_per_day
+                 ((long double)hour * minutes_per_hour + minute) / minutes_per_day
 /*            (long double)hour / hours_per_day + (long double)minute / minutes_per_day */
                  + sec / seconds_per_day;
    return( rval + offset);
-- 
2.43.0


From 7302d569c581107039d574f9d6d92abaf05d78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 074/126] fix: integrated_refraction( ) returned NaN at the
 zenith

---
 refract4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refract4.cpp b/refract4.cpp
index 3b4abf4..a2697f0 100644
--- a/refract4.cpp
+++ b/refract4.cpp
@@ -200,6 +200,8 @@ double DLL_FUNC integrated_refraction( const double latitude,
    l0.r = ref.r0;
    compute_refractive_index( &ref, &l0, 1);
    l0.z = PI / 2. - observed_alt;
+   if( !l0.z)           /* straight up;  no refraction (and avoid 0/0 below) */
+      return( 0.);
    compute_integrand( &l0);
 
    lt.r = rt;
-- 
2.43.0


From e70332cc1dd3e055ae1e0f6d303606605f932b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 075/126] fix: integrated_refraction( ) could be off by an
 arcsecond or more when the integration was ended early

---
 refract4.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refract4.cpp b/refract4.cpp
index a2697f0..6841018 100644
--- a/refract4.cpp
+++ b/refract4.cpp
@@ -142,6 +142,7 @@ static double total_refraction( const REFRACT *ref,
    const double iteration_limit = 1.;     /* get 'r' within a meter */
    const double integration_tolerance = .0001;
    const int max_recursion_depth = 20;
+   const int min_recursion_depth = 3;
 
    mid.z = (l1->z + l2->z) * .5;
    mid.r = (l1->r + l2->r) * .5;
@@ -160,8 +161,11 @@ static double total_refraction( const REFRACT *ref,
    change = 2. * mid.integrand - (l1->integrand + l2->integrand);
 // if( recursion_depth >= max_recursion_depth)
 //    printf( "!!! recursed too deep\n");
-            /* ...and if it's too great,  recurse with each half: */
-   if( fabs( change) > integration_tolerance && recursion_depth < max_recursion_depth)
+            /* ...and if it's too great,  recurse with each half.  The */
+            /* difference can be near zero by chance,  so a few levels */
+            /* of recursion are always done.                           */
+   if( (fabs( change) > integration_tolerance || recursion_depth < min_recursion_depth)
+                     && recursion_depth < max_recursion_depth)
       return( total_refraction( ref, l1, &mid, is_troposphere, recursion_depth + 1)
             + total_refraction( ref, &mid, l2, is_troposphere, recursion_depth + 1));
    else
-- 
2.43.0


From 1457cf16bc449726fe8bc3f9ab379ce7e4df7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 076/126] fix: Io's distance from Jupiter used the wrong
 perijove in a term (pi1 instead of pi3)

---
 jsats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsats.cpp b/jsats.cpp
index 6684c3b..1d22998 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -163,7 +163,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
              +  311.e-7 * sin( lon[1] - psi)
              +   93.e-7 * sin( lon[1] - ome4);
       rad[1] = -41339.e-7 * cos( 2. * (l1 - l2))
-               -  387.e-7 * cos( l1 - pi1)
+               -  387.e-7 * cos( l1 - pi3)
                -  214.e-7 * cos( l1 - pi4)
                +  170.e-7 * cos( l1 - l2)
                -  131.e-7 * cos( 4. * (l1 - l2))
-- 
2.43.0


From f0ab76f2036104237a898ada6a6bf41bb998711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 077/126] fix: sign of the term of Io's latitude for the tilt
 of Jupiter's equator

---
 jsats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsats.cpp b/jsats.cpp
index 1d22998..4ad2c5e 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -160,7 +160,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
       tan_lat[1] = 6393.e-7 * sin( lon[1] - ome1)
              + 1825.e-7 * sin( lon[1] - ome2)
              +  329.e-7 * sin( lon[1] - ome3)
-             +  311.e-7 * sin( lon[1] - psi)
+             -  311.e-7 * sin( lon[1] - psi)
              +   93.e-7 * sin( lon[1] - ome4);
       rad[1] = -41339.e-7 * cos( 2. * (l1 - l2))
                -  387.e-7 * cos( l1 - pi3)
-- 
2.43.0


From cbfa90fb0d7b7d6697a65d192206ae9d95ee794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 078/126] fix: sign of a term in Ganymede's distance from
 Jupiter

---
 jsats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsats.cpp b/jsats.cpp
index 4ad2c5e..4092fb0 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -266,7 +266,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
                 - 156.e-7 * cos( 3. * (l3 - l4))
                 + 156.e-7 * cos( l1 - l3)
                 - 153.e-7 * cos( l1 - l2)
-                -  70.e-7 * cos( 2. * l2 - 3. * l3 + pi3);
+                +  70.e-7 * cos( 2. * l2 - 3. * l3 + pi3);
       }
 
    if( sats_wanted & 8)       /* callisto */
-- 
2.43.0


From 18e49f6ddcd1bcffd4ec62163725e38794ae7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 079/126] fix: argument of the last term in Ganymede's latitude
 (sign of psi)

---
 jsats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsats.cpp b/jsats.cpp
index 4092fb0..ee8eb89 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -257,7 +257,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
                + 321.e-7 * sin( lon[3] + psi - twice_per_plus_g)
                +  51.e-7 * sin( lon[3] - psi + g)
                -  45.e-7 * sin( lon[3] - psi - g)
-               -  45.e-7 * sin( lon[3] - psi - 2. * PER);
+               -  45.e-7 * sin( lon[3] + psi - 2. * PER);
       rad[3] = -14388.e-7 * cos( l3 - pi3)
                 -7919.e-7 * cos( l3 - pi4)
                 +6342.e-7 * cos( l2 - l3)
-- 
2.43.0


From f523a2b398b3be12be562c7f24c14895a5b1e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 080/126] fix: Titan's orbital plane was computed with the
 inclination of Rhea

---
 ssats.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index b4437de..a103131 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -247,12 +247,14 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          const double beta = .3752 * PI / 180.;
 
          double big_N = elems->Omega, g;
+         const double titan_sin_gamma0 = .0051661;      /* gamma0 = .2960 deg */
+         const double titan_sin_gamma0_tan_half_incl = .00129131;
          double perturb_Omega, perturb_incl;
 
-         elems->lambda += sin_gamma0_tan_half_incl * sin( big_N);
-         perturb_Omega = sin_gamma0 * sin( big_N);
+         elems->lambda += titan_sin_gamma0_tan_half_incl * sin( big_N);
+         perturb_Omega = titan_sin_gamma0 * sin( big_N);
          elems->Omega = Omega1_plus_dOmega + perturb_Omega / sin_incl1;
-         perturb_incl = sin_gamma0 * cos( big_N);
+         perturb_incl = titan_sin_gamma0 * cos( big_N);
          elems->gamma = Incl1_plus_dIncl + perturb_incl;
          g = elems->omega - elems->Omega - 4.6 * PI / 180.;
          elems->ecc += beta * elems->ecc * (cos( g + g) - cos( g0 + g0));
-- 
2.43.0


From 59d9e66bf92482731114698defa89e1d678c7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 081/126] fix: solar perturbation of Titan's pericentre was
 multiplied by the eccentricity

---
 ssats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssats.cpp b/ssats.cpp
index a103131..3949336 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -258,7 +258,7 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->gamma = Incl1_plus_dIncl + perturb_incl;
          g = elems->omega - elems->Omega - 4.6 * PI / 180.;
          elems->ecc += beta * elems->ecc * (cos( g + g) - cos( g0 + g0));
-         elems->omega += beta * elems->ecc * (sin( g + g) - sin( g0 + g0));
+         elems->omega += beta * (sin( g + g) - sin( g0 + g0));
          }
          break;
       case HYPERION:
-- 
2.43.0


From 30b3e9f8306216bf8988c9dc7ee90f0c1aabd3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 082/126] fix: variation of Hyperion's semimajor axis is in AU
 already

---
 ssats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index 3949336..8932470 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -365,13 +365,13 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->omega += C_omega_2zeta * arg;
 
          arg = cos( tau);
-         elems->semimaj += C_a_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_tau * arg;
          elems->ecc += C_e_tau * arg;
          arg = cos( zeta + tau);
-         elems->semimaj += C_a_zeta_plus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_plus_tau * arg;
          elems->ecc += C_e_zeta_plus_tau * arg;
          arg = cos( zeta - tau);
-         elems->semimaj += C_a_zeta_minus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_minus_tau * arg;
          elems->ecc += C_e_zeta_minus_tau * arg
                       + C_e_zeta * cos( zeta)
                       + C_e_2zeta * cos( zeta + zeta)
-- 
2.43.0


From bc2010dc4ea89bf1e5ad79553ba8ec74bceb1148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 083/126] fix: solar perturbations of Iapetus' orbit used the
 node of Titan's orbit

---
 ssats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index 8932470..f08a9e7 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -435,11 +435,11 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
                                   -.06312 * sin( ls)
                                   -.00295 * sin( ls + ls)
                                   -.02231 * sin( ls_plus_gs_2)
-                                  +.00650 * sin( ls_plus_gs_2 + phi);
-         const double d_incl = .04204 * cos( ls_plus_gs_2 + phi)
+                                  +.00650 * sin( ls_plus_gs_2 + psi);
+         const double d_incl = .04204 * cos( ls_plus_gs_2 + psi)
                                +.00235 * cos( l + g1 + lt_plus_gt + phi)
                                +.00360 * cos( l - lt_gt_minus_g1 + phi);
-         const double d_Omega = .04204 * sin( ls_plus_gs_2 + phi)
+         const double d_Omega = .04204 * sin( ls_plus_gs_2 + psi)
                                +.00235 * sin( l + g1 + lt_plus_gt + phi)
                                +.00358 * sin( l - lt_gt_minus_g1 + phi);
 
-- 
2.43.0


From fcd033f444eb154b2acb7d15a9af9a057b610100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 084/126] fix: mean parameters of the Uranian satellites were
 recomputed every time,  except for JDE = -1

---
 gust86.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gust86.cpp b/gust86.cpp
index 14c8b90..7c7fc39 100644
--- a/gust86.cpp
+++ b/gust86.cpp
@@ -79,7 +79,7 @@ static double an[5], ae[5], ai[5];         // satellite position data
 
 static void gust86_mean_parameters( const double jde )
 {
-   static double curr_jde_set = -1.;
+   static double curr_jde_set = -9.99e+99;
 
    if( jde != curr_jde_set)
       {
@@ -121,6 +121,7 @@ static void gust86_mean_parameters( const double jde )
          5.702313, 0.395757, 0.589326, 1.746237, 4.206896
          };
 
+      curr_jde_set = jde;
       // Compute the orbital data.
 
       for( i = 0; i < 5; i++)
-- 
2.43.0


From 5d5803f527da640b9a4b6d70e8779a3d1072025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 085/126] fix: Kepler's equation for Uranian satellites wasn't
 solved for mean longitudes near zero

---
 gust86.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gust86.cpp b/gust86.cpp
index 7c7fc39..1b29689 100644
--- a/gust86.cpp
+++ b/gust86.cpp
@@ -473,11 +473,8 @@ static double keplkh( const double rl, const double rk, const double rh)
    const int itmax = 20;
    int it;
 
-   if( rl==0.0)
-      return( 0.);
-
    f0 = rl;
-   e0 = fabs(rl);
+   e0 = fabs(rl) + 1.;
 
    for( it=0; it<itmax; it++)
       {
-- 
2.43.0


From 11d82bf93654cde9bcfb0f977296238b899c5796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 086/126] fix: velocities of Helene,  Telesto and Calypso at
 right angles to their orbits weren't the derivatives of the positions

---
 htc20b.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/htc20b.cpp b/htc20b.cpp
index b6be123..aad957f 100644
--- a/htc20b.cpp
+++ b/htc20b.cpp
@@ -89,7 +89,7 @@ int htc20( const double jd, const int sat_no, double *xyz, double *vxyz)
     static const int16_t rh[144] = {
                 -2396,  -399,  442, 1278, -4939,  2466,
                   557, -2152, 1074, 5500,   916, -1015,
-                    0,     0,    0,    0,     5,    10,
+                    0,     0,    0,    0,    11,    23,
                     0,     5,   10,    0,     0,     0,
                   -67,   264, -132, -677,  -110,   123,
                   294,    48,  -53, -154,   608,  -304,
@@ -122,7 +122,7 @@ int htc20( const double jd, const int sat_no, double *xyz, double *vxyz)
     static const int16_t rt[72]   /* was [6][12] */ = {
                 -1933,  -253, 320, 1237, -5767,  2904,
                   372, -1733, 873, 6432,   842, -1066,
-                    0,     0,   0,    2,    10,    19,
+                    0,     0,   0,    7,    33,    63,
                     2,    10,  19,    0,     0,     0,
                    -6,    29, -15, -108,   -14,    18,
                    32,     4,  -5,  -21,    97,   -49,
@@ -149,7 +149,7 @@ int htc20( const double jd, const int sat_no, double *xyz, double *vxyz)
     static const int16_t rc[144]   /* was [6][24] */ = {
                   651, 1615, -910, -6145,  2170, -542,
                 -1846,  652, -163, -2166, -5375, 3030,
-                    0,    0,    0,     5,    27,   52,
+                    0,    0,    0,   -17,   -90, -173,
                     5,   27,   52,     0,     0,    0,
                     0,    0,   -2,     0,     0,    0,
                     0,    0,    0,     0,     0,   -2,
-- 
2.43.0


From 197d01a7e2fb0b2b85f4e07cac9002d7b3caa955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:09 +0000
Subject: [PATCH 087/126] fix: color inversion stalled and failed for B-V =
 1.24 to 1.47,  among other ranges

---
 colors.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/colors.cpp b/colors.cpp
index f92669e..f7bac42 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -88,8 +88,13 @@ static double compute_inverse_color_polynomial( const double ival,
       rval = 99.;
    else do
       {
-      rval = (ival - color_low) / ( color_high - color_low);
-      rval += rval * (rval -.5) * (rval - 1.);
+      if( max_iterations & 1)       /* bisect every other step,  to be sure */
+         rval = .5;                 /* that both limits will keep moving    */
+      else
+         {
+         rval = (ival - color_low) / ( color_high - color_low);
+         rval += rval * (rval -.5) * (rval - 1.);
+         }
       rval = low_limit + (high_limit - low_limit) * rval;
       color_rval = compute_color_polynomial( rval, coeffs,
                      ilow_limit, ihigh_limit);
-- 
2.43.0


From 0b294245923fcadead15f0822fb503dea322b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:09 +0000
Subject: [PATCH 088/126] fix: Tycho to Johnson conversions for BT-VT = 1.8
 exactly omitted the correction

---
 colors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/colors.cpp b/colors.cpp
index f7bac42..69337e6 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -189,7 +189,7 @@ double johnson_b_minus_v_from_tycho_b_minus_v( const double b_v_t)
       delta = .046 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = .046 - .054 * (b_v_t - .5) / .9;
-   else if( b_v_t < 1.8)
+   else
       delta = -.008 - .024 * (b_v_t - 1.4) / .4;
    return( .85 * b_v_t + delta);
 }
@@ -213,7 +213,7 @@ double johnson_v_from_tycho_b_minus_v( const double b_v_t, const double tycho_v)
       delta = -.005 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = -.005;
-   else if( b_v_t < 1.8)
+   else
       delta = -.005 - .010 * (b_v_t - 1.4) / .4;
    return( tycho_v - .09 * b_v_t + delta);
 }
-- 
2.43.0


From 1c672357a85c716fa6a6f0d5213cb807a554f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 089/126] fix: calc_big_vsop_loc() left 'big_vsop.bin' open
 when it couldn't be read

---
 big_vsop.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index f99adcb..3369e14 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -139,7 +139,11 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       {                             /* reload the cache */
       fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
       if( !fread( cache, 3 * 6 + 1, sizeof( int16_t), ifile))
+         {
+         if( close_it)
+            fclose( ifile);
          return( -2);
+         }
       curr_planet = planet;
       }
 
@@ -162,7 +166,11 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
          for( j = loc[1] - loc[0]; j; j--)
             {
             if( !fread( idata, 3, sizeof( double), ifile))
+               {
+               if( close_it)
+                  fclose( ifile);
                return( -3);
+               }
             if( idata[0] > prec || idata[0] < -prec)
                {
                double argument = idata[1] + idata[2] * t;
-- 
2.43.0


From 9775101d6d9dd5f5d3d78e25e1b9b5ad64e0f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 090/126] fix: compute_planet() didn't handle planet 9 (Pluto),
  hitting an assert

---
 getplane.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/getplane.cpp b/getplane.cpp
index d0a6195..4fdc6b3 100644
--- a/getplane.cpp
+++ b/getplane.cpp
@@ -50,7 +50,25 @@ int DLL_FUNC compute_planet( const char FAR *vsop_data, const int planet_no,
    const double obliq_2000 = 23.4392911 * PI / 180.;
 
             /* first,  compute polar heliocentric in eclip of date */
-   if( planet_no != 10)
+   if( planet_no == 9)        /* Pluto is computed in J2000 ecliptic coords */
+      {
+      double loc[3], xyz[3];
+
+      calc_pluto_loc( vsop_data, loc, t_c, 0L);
+      xyz[0] = cos( loc[0]) * cos( loc[1]) * loc[2];
+      xyz[1] = sin( loc[0]) * cos( loc[1]) * loc[2];
+      xyz[2] =                sin( loc[1]) * loc[2];
+      rotate_vector( xyz, obliq_2000, 0);
+      setup_precession( matrix, 2000., 2000. + t_c * 100.);
+      precess_vector( matrix, xyz, xyz);
+      rotate_vector( xyz, -obliquit, 0);
+      lon = atan2( xyz[1], xyz[0]);
+      if( lon < 0.)
+         lon += PI + PI;
+      lat = atan2( xyz[2], hypot( xyz[0], xyz[1]));
+      r   = loc[2];
+      }
+   else if( planet_no != 10)
       {
       lon = calc_vsop_loc( vsop_data, planet_no, 0, t_c, 0.);
       lat = calc_vsop_loc( vsop_data, planet_no, 1, t_c, 0.);
-- 
2.43.0


From c929c6bd2fec27e2d5cbb57515f15e888dda0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 091/126] fix: ELP82 series leaked a buffer when truncated for
 precision,  and were lost if they ended in a partial chunk at the end of the
 file

---
 elp82dat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elp82dat.cpp b/elp82dat.cpp
index 3ef9df5..b364eab 100644
--- a/elp82dat.cpp
+++ b/elp82dat.cpp
@@ -182,14 +182,14 @@ static double add_in_series( FILE *ifile, const int series_no,
       double angle;
 
       if( ibuff == tptr)
-         if( !fread( ibuff, chunk_size, term_size, ifile))
+         if( !fread( ibuff, term_size, chunk_size, ifile))
             {
             free( ibuff);
             return( 0.);
             }
       amplitude = *(int32_t *)tptr;
       if( amplitude < lprec && amplitude > -lprec)
-         return( rval * 1.e-5);
+         break;
       switch( series_type)
          {
          case 0:        /* main problem */
-- 
2.43.0


From 1da7c3ba190e4282e88b239850b9723e9b6bb4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 092/126] fix: big_vsop.bin files ending in the middle of the
 header or of a term weren't recognized as being truncated

---
 big_vsop.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index 3369e14..426d98a 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -138,8 +138,9 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
    if( curr_planet != planet)
       {                             /* reload the cache */
       fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
-      if( !fread( cache, 3 * 6 + 1, sizeof( int16_t), ifile))
+      if( fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
          {
+         curr_planet = 99;
          if( close_it)
             fclose( ifile);
          return( -2);
@@ -165,7 +166,7 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
          sum = 0.;
          for( j = loc[1] - loc[0]; j; j--)
             {
-            if( !fread( idata, 3, sizeof( double), ifile))
+            if( fread( idata, sizeof( double), 3, ifile) != 3)
                {
                if( close_it)
                   fclose( ifile);
-- 
2.43.0


From d7093f42fb3ff23b50574f1c22498009b44c2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 093/126] fix: create_mpc_packed_desig() looked past the end of
 an empty name

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index aa646aa..6cf6a68 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -726,7 +726,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       }
                /* Check for comet-style desigs such as 'P/1995 O1' */
                /* and such.  Leading character can be P, C, X, D, or A. */
-   if( obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
+   if( *obj_name && obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
       {
       comet_desig = *obj_name;
       obj_name += 2;
-- 
2.43.0


From 999e62b6cdcd4e00e935ae9ccb3eafe19985bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 094/126] fix: unpack_unaligned_mpc_desig() didn't terminate
 long names or accept a NULL buffer

---
 unpack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 547a2cf..cece16f 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -376,7 +376,11 @@ int unpack_unaligned_mpc_desig( char *obuff, const char *packed)
       len++;
    if( len > 12)
       {
-      memcpy( obuff, packed, 12);
+      if( obuff)
+         {
+         memcpy( obuff, packed, 12);
+         obuff[12] = '\0';
+         }
       return( OBJ_DESIG_OTHER);
       }
    memset( aligned, ' ', 12);
-- 
2.43.0


From 0e43c18b734c6116d71e4c5504c164022f367aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 095/126] fix: a latitude or longitude with no compass sign
 made the parser look past the end of the text

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 249478d..6640411 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -568,7 +568,7 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
 /* printf( "From '%s',  got %d, value %f\n", buff, (int)( tptr - buff), *value); */
    if( n_fields && rval == GOT_NOTHING)
       {
-      if( !compass_byte && strchr( compass, *tptr))
+      if( !compass_byte && *tptr && strchr( compass, *tptr))
          {                 /* compass sign after the angle */
          compass_byte = *tptr++;
 /*       printf( "Got byte '%c'; value %f\n", compass_byte, *value); */
-- 
2.43.0


From 3808960d10ab1d0eb152cef7f815ddf8bf4a882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 096/126] fix: names of rovers were taken from past the end of
 short lines

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 6640411..5f543b0 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -338,7 +338,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                }
             cinfo->lon *= PI / 180.;
             cinfo->lat *= PI / 180.;
-            cinfo->name = buff + 47;
+            cinfo->name = (strlen( buff) > 47 ? buff + 47 : "");
             cinfo->format = MPC_CODE_LAT_LON_ALT;
             if( tptr)                     /* non-earth location */
                {
-- 
2.43.0


From 3616e1e98afecc327968c2f63aa7c36f4c8bb52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 097/126] fix: axis ratios for negative planet numbers
 (possible in 'rovers.txt') were read from outside the table

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5f543b0..22b6797 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -94,7 +94,7 @@ const double polar_radii[N_POLAR_RADII] = {
 
 double planet_axis_ratio( const int planet_idx)
 {
-   return( planet_idx >= N_POLAR_RADII ?
+   return( planet_idx < 0 || planet_idx >= N_POLAR_RADII ?
             1 : polar_radii[planet_idx] / equatorial_radii[planet_idx]);
 }
 
-- 
2.43.0


From 668e0899d38f80865c2af131d658d6a62fa1100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 098/126] fix: malformed Delta-T strings (no colon,  trailing
 blanks) were read past their ends

---
 delta_t.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index 96f6570..6f4d94e 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -120,9 +120,10 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
       if( tptr == dt_string || tptr[-1] == ';')
          {
          double year1, year2;
-         int bytes_read;
+         int bytes_read = 0;
 
          if( sscanf( tptr, "%lf,%lf:%n", &year1, &year2, &bytes_read) == 2
+                  && bytes_read
                   && year >= year1 && year < year2)
             {
             double offset = 2000., x, power = 1., coeff;
@@ -131,6 +132,7 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
             if( *tptr == 'o')
                {
                tptr++;
+               bytes_read = 0;
                sscanf( tptr, "%lf,%n", &offset, &bytes_read);
                tptr += bytes_read;
                }
@@ -138,7 +140,7 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
             *delta_t = 0.;
             rval = 0;
             while( tptr[-1] != ';' && *tptr
-                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read))
+                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read) == 1)
                {
                *delta_t += power * coeff;
                power *= x;
-- 
2.43.0


From aec7da2380717fb2f5e589679bb20efba3ce413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 099/126] fix: invalid packed provisional designations after a
 number were taken as valid,  or read from uninitialized memory

---
 unpack.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index cece16f..c14ef2b 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -82,6 +82,8 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
 {
    int rval = 0;
 
+   if( obuff)
+      *obuff = '\0';
    if( *ibuff ==  '_' && ibuff[2] >= 'A' && ibuff[2] <= 'Z')
       {
       const int year = mutant_hex_char_to_int( ibuff[1]);
@@ -107,8 +109,7 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
 
       if( output_no == -1)
          rval = -2;
-
-      if( obuff)
+      else if( obuff)
          {
          obuff[0] = ((*ibuff >= 'K') ? '2' : '1');          /* millennium */
          obuff[1] = (char)( '0' + ((*ibuff - 'A') % 10));   /* century   */
@@ -131,11 +132,7 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
          }
       }
    else
-      {
-      if( obuff)
-         *obuff = '\0';
       rval = -1;
-      }
    return( rval);
 }
 
-- 
2.43.0


From 02e4f5ceb2cdfc6588306ad71a8cf4b6758bad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 100/126] fix: names in columns 5-12 that aren't comet
 designations got a spurious 'P/', 'C/', 'D/', 'X/' or 'A/'

---
 unpack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpack.cpp b/unpack.cpp
index c14ef2b..31dfd42 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -322,6 +322,8 @@ int unpack_mpc_desig( char *obuff, const char *packed)
          rval = ((packed[4] == ' ' || packed[4] == 'A') ?
                                       OBJ_DESIG_ASTEROID_PROVISIONAL
                                     : OBJ_DESIG_COMET_PROVISIONAL);
+      else if( obuff && packed[4] != ' ')
+         obuff -= 2;         /* not a comet desig;  name is shown as is */
       }
    if( rval == OBJ_DESIG_OTHER && space_mask == 0x1f
             && (digit_mask & 0xf00) == 0xf00 && packed[7] == 'S')
-- 
2.43.0


From 20b5206211085ba92d0d83f9b976eb21c885db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 101/126] fix: 'numbered comets' with letters for first digits
 lost their numbers

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 31dfd42..5e3cc67 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -280,7 +280,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
                }
             }
          }
-      else if( strchr( "PCDXAI", packed[4]))   /* it's a numbered comet */
+      else if( isdigit( packed[0]) && strchr( "PCDXAI", packed[4]))   /* it's a numbered comet */
          {
          if( obuff)
             {
-- 
2.43.0


From 637cd21e220dcd6bc1b3658e44c8e19c3093de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 102/126] fix: extended asteroid numbers followed by something
 other than a provisional designation were taken as valid

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 5e3cc67..efd275a 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -238,7 +238,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
 
             /* Check for numbered asteroids (620000) or greater.  See MPEC
             2019-O55 for explanation of this 'extended numbering scheme'. */
-   if( packed[0] == '~' && ((space_mask & 0x3e0) == 0x3e0 || !(space_mask & 0x3e0)))
+   if( packed[0] == '~' && ((space_mask & 0x3e0) == 0x3e0 || *provisional_desig))
       {
       const int num = get_mutant_hex_value( packed + 1, 4);
 
-- 
2.43.0


From 63a544925d21be1a9642c2cce5eb7f864cef79ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 103/126] fix: numbers followed by extended provisional
 designations with large cycle counts ended the program

---
 unpack.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index efd275a..9ee6a96 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -247,8 +247,9 @@ int unpack_mpc_desig( char *obuff, const char *packed)
          if( obuff)
             {
             snprintf_err( obuff, 11, "(%d)", num + 620000);
-            if( *provisional_desig)
-               snprintf_append( obuff, 24, " %s", provisional_desig);
+            if( *provisional_desig
+                     && strlen( obuff) + strlen( provisional_desig) + 1 < obuff_size)
+               snprintf_append( obuff, obuff_size, " %s", provisional_desig);
             }
          return( OBJ_DESIG_ASTEROID_NUMBERED);
          }
@@ -275,8 +276,9 @@ int unpack_mpc_desig( char *obuff, const char *packed)
                   /* Desig may be,  e.g., "U4330K06SL7X" : both the number */
                   /* and the provisional desig.  We'd like to decipher this */
                   /* as (for the example) "304330 = 2006 SX217".            */
-               if( *provisional_desig)
-                  snprintf_append( obuff, 23, " = %s", provisional_desig);
+               if( *provisional_desig
+                     && strlen( obuff) + strlen( provisional_desig) + 3 < obuff_size)
+                  snprintf_append( obuff, obuff_size, " = %s", provisional_desig);
                }
             }
          }
-- 
2.43.0


From fcd2f14830ad9893639f4f9986ece440c3d9c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 104/126] fix: lunar transits weren't found for places south of
 the moon's declination (such as Hawaii)

---
 lun_tran.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lun_tran.cpp b/lun_tran.cpp
index 85f5c0d..1ccbb88 100644
--- a/lun_tran.cpp
+++ b/lun_tran.cpp
@@ -55,7 +55,7 @@ static double look_for_transit_time( const int planet_no,
       fill_planet_data( &pdata, planet_no, jd,
                           observer_lat, observer_lon, vsop_data);
 
-      delta = atan2( pdata.altaz_loc[1], pdata.altaz_loc[0]);
+      delta = pdata.hour_angle;     /* azimuth won't do in the tropics and south */
       if( !real_transit)
          delta += pi;
       while( delta < -pi)
@@ -64,7 +64,6 @@ static double look_for_transit_time( const int planet_no,
          delta -= pi + pi;
       if( planet_no == 10)       /* moon moves a little faster */
          delta *= 30.5 / 29.5;
-      delta *= sqrt( 1. - pdata.altaz_loc[2] * pdata.altaz_loc[2]);
       jd += delta / (2. * pi);
       }
       while( fabs( delta) > .0001 && iterations--);
-- 
2.43.0


From 0feb2c31e5594e10a7d9f979ed8d3e706e72b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 105/126] fix: rise/set times at high latitudes could be
 minutes off,  or not converge at all

---
 riseset3.cpp | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/riseset3.cpp b/riseset3.cpp
index 5a1d979..4163682 100644
--- a/riseset3.cpp
+++ b/riseset3.cpp
@@ -126,12 +126,13 @@ For the moon,  this altitude is +.125 degrees.
 hour,  and above it on the next hour,  then it must have risen in the
 interval;  if it was above that altitude,  then below,  it must have
 set.  We do an iterative search to find the instant during that
-hour that it rose or set.  This starts with a guessed rise/set time
-of the particular hour in question.  At each step,  we look at the
-altitude of that object at that time,  and use it to adjust the rise/set
-time based on the assumption that the motion was linear during the hour
-(which isn't a wonderful assumption,  but still usually converges in
-a few iterations.)
+hour that it rose or set.  At each step,  we look at the altitude of
+that object at the time it would rise or set if the motion were linear,
+and use it to narrow down the part of the hour containing the rise/set
+time.  If the same end of that part gets replaced twice in a row,  the
+altitude at the other end is halved (the 'Illinois' variant of the method
+of false position);  this converges even if the motion is far from linear,
+as happens at high latitudes.
 
    The rise time is stored in rise_set[0].
    The set time is stored in rise_set[1].
@@ -164,17 +165,38 @@ double look_for_rise_set( const int planet_no,
       *is_setting = -1;
    if( *is_setting != -1)
       {
-      double fraction = 0., alt = alt0, delta = 1.;
-      int iterations = 10;
+      double fraction0 = 0., fraction1 = 1., fraction = 0., delta = 1.;
+      int iterations = 40, prev_end = -1;
 
-      while( fabs( delta) > .0001 && iterations--)
+      while( fabs( delta) > .00001 && iterations--)
          {
-         delta = -alt / (alt1 - alt0);
-         fraction += delta;
+         const double new_fraction =
+                     fraction0 + (fraction1 - fraction0) * alt0 / (alt0 - alt1);
+         double alt;
+         int end;
+
+         delta = new_fraction - fraction;
+         fraction = new_fraction;
          rval = jd0 + (jd1 - jd0) * fraction;
-         fill_planet_data( &pdata, planet_no, jd0 + (jd1 - jd0) * fraction,
+         fill_planet_data( &pdata, planet_no, rval,
                           observer_lat, observer_lon, vsop_data);
          alt = asin( pdata.altaz_loc[2]) - riseset_alt;
+         end = ((alt > 0.) == (*is_setting == 1) ? 0 : 1);
+         if( !end)
+            {
+            fraction0 = fraction;
+            alt0 = alt;
+            if( prev_end == end)
+               alt1 /= 2.;
+            }
+         else
+            {
+            fraction1 = fraction;
+            alt1 = alt;
+            if( prev_end == end)
+               alt0 /= 2.;
+            }
+         prev_end = end;
          }
       }
    return( rval);
-- 
2.43.0


From 3bc0c67f93e11e287fcbf1fee1dfbda590714f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:33 +0000
Subject: [PATCH 106/126] fix: astcheck gave up if a .chk file had been left
 (or was still) without a complete header; it's now rebuilt

---
 astcheck.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 4d1cf36..a813969 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -325,12 +325,8 @@ static AST_DATA *get_cached_day_data( const int ijd)
    ifile = get_file_from_path( filename, "rb");
    if( ifile)
       {
-      if( !fread( header, HEADER_SIZE, sizeof( int), ifile))
-         {
-         printf( "Error reading header data in '%s'\n", filename);
-         exit( -2);
-         }
-      if( header[0] == magic_version_number &&
+      if( fread( header, sizeof( int32_t), HEADER_SIZE, ifile) == HEADER_SIZE &&
+                      header[0] == magic_version_number &&
                       header[1] == sof_checksum && header[2] == n_asteroids)
          {
          fseek( ifile, 0L, SEEK_END);
-- 
2.43.0


From abdcf4e75648f7a51275cbaa4e4dc13389bf9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:33 +0000
Subject: [PATCH 107/126] fix: astcheck found no motion for objects crossing 0h
 in RA

---
 astcheck.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index a813969..9198fb0 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -457,10 +457,10 @@ static double compute_motion( const char **lines, const int n_lines,
 
          if( !get_mpc_data( lines[i], &jd1, &ra1, &dec1)
                 && fabs( jd1 - jd) < 10.   /* within ten days... */
-                && fabs( ra1 - ra) < five_degrees
+                && fabs( centralize_angle( ra1 - ra)) < five_degrees
                 && fabs( dec1 - dec) < five_degrees)
             {
-            *ra_motion = (ra1 - ra) / (jd1 - jd);
+            *ra_motion = centralize_angle( ra1 - ra) / (jd1 - jd);
             *dec_motion = (dec1 - dec) / (jd1 - jd);
             *ra_motion *= cos( dec);
                      /* cvt radians/day to arcsec/hr: */
-- 
2.43.0


From 08c9da2cce53a15b1c2e6658a87e5fd62bfce5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:33 +0000
Subject: [PATCH 108/126] fix: astcheck's checksum of the orbits looked at only
 four bytes of them,  so outdated .chk files went unnoticed

---
 astcheck.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 9198fb0..9631f5a 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -171,7 +171,7 @@ static FILE *get_sof_file( const char *filename)
          fseek( ifile, (long)( i * (filelen - sizeof( buff))) / 3L, SEEK_SET);
          if( fread( buff, sizeof( buff), 1, ifile))
             for( j = 0; j < sizeof( buff); j++)
-               sof_checksum = sof_checksum * big_prime + (int32_t)buff[i];
+               sof_checksum = sof_checksum * big_prime + (int32_t)buff[j];
          }
       fseek( ifile, 0L, SEEK_SET);
       if( verbose)
-- 
2.43.0


From 78e097d399e47b827127c6823b3bbe4588213075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:34 +0000
Subject: [PATCH 109/126] fix: astcheck missed objects crossing RA 12h between
 the days it interpolates

---
 astcheck.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 9631f5a..9af7e9a 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -399,18 +399,9 @@ static int is_between( int bound1, int bound2, int x, int tolerance)
 {
    int rval;
 
-   bound1 -= x;
-   bound2 -= x;
-   while( bound1 + bound2 < -65536)
-      {
-      bound1 += 65536;
-      bound2 += 65536;
-      }
-   while( bound1 + bound2 > 65536)
-      {
-      bound1 -= 65536;
-      bound2 -= 65536;
-      }
+   bound2 = (int16_t)( bound2 - bound1);     /* arc from bound1 to bound2... */
+   bound1 = (int16_t)( bound1 - x);          /* ...as seen from x */
+   bound2 += bound1;
    if( bound1 < bound2)
       rval = (0 >= bound1 - tolerance && 0 <= bound2 + tolerance);
    else
-- 
2.43.0


From 2ce1dbc6cb327f9bf46525c9cb3044260ad9b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:34 +0000
Subject: [PATCH 110/126] fix: astcheck missed objects at high declinations, 
 since its first cut ignored the convergence of meridians

---
 astcheck.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 9af7e9a..d14a16e 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -752,6 +752,8 @@ int main( const int argc, const char **argv)
          double jd2;
          const int16_t tolerance = (int16_t)
                           ( tolerance_in_arcsec * 65536 / (360. * 3600.));
+         const int ra_tolerance = (tolerance < 32767. * cos_dec ?
+                          (int)( (double)tolerance / cos_dec) : 32767);
          char tbuff[300];
          int n_results = 0;
          int n_checked = 0;
@@ -854,12 +856,11 @@ int main( const int argc, const char **argv)
          n_lines_printed++;
          for( i = 0; i < n_asteroids; i++)
             {
-            const int16_t tolerance2 = tolerance;
 
             assert( day_data[0]);
             assert( day_data[1]);
-            if( is_between( day_data[0][i].ra, day_data[1][i].ra, int_ra, tolerance2 + 5))
-               if( is_between( day_data[0][i].dec, day_data[1][i].dec, int_dec, tolerance2 + 5))
+            if( is_between( day_data[0][i].ra, day_data[1][i].ra, int_ra, ra_tolerance + 5))
+               if( is_between( day_data[0][i].dec, day_data[1][i].dec, int_dec, tolerance + 5))
                   {
                   ELEMENTS class_elem;
                   double ra1, dec1, mag;
-- 
2.43.0


From 56516ab64eaab2872c9e55a1fb7eb7a49d8fa32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 111/126] fix: astephem divided the phase correction to the
 magnitude by ln(10)

---
 astephem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index e6b05c5..af21312 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -63,8 +63,8 @@ static double calc_obs_magnitude( ELEMENTS *elem, const double obj_sun,
                   law_of_cosines( obj_sun, obj_earth, earth_sun);
       const double phase_ang = acose( cos_phase_ang);
 
-      magnitude = 5. * log( obj_sun) + phase_angle_correction_to_magnitude(
-                                   phase_ang, elem->slope_param);
+      magnitude = 5. * log( obj_sun) + LOG_10 *
+               phase_angle_correction_to_magnitude( phase_ang, elem->slope_param);
       }
    magnitude += 5. * log( obj_earth);
    magnitude /= LOG_10;      /* cvt from natural logs to common (base 10) */
-- 
2.43.0


From fe308dc8903e92dd8bf7e8774e099d0415164ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 112/126] fix: astephem got cut-off data for about half of the
 objects looked up by designation,  and gave unnumbered objects for numbers
 beyond those in the file

---
 astephem.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index af21312..eff2207 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -72,16 +72,18 @@ static double calc_obs_magnitude( ELEMENTS *elem, const double obj_sun,
    return( magnitude);
 }
 
-static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
+static int find_astorb_rec( FILE *ifile, const char *obj_name, char *buff)
 {
    long loc = 0, n_recs, step;
    int n_bytes, ast_number;
+   char key[50];
 
    if( sscanf( obj_name, "%d%n", &ast_number, &n_bytes) == 1)
       if( obj_name[n_bytes] == '\0')
          {
          fseek( ifile, (long)(ast_number - 1) * ASTORB_RECORD_LEN, SEEK_SET);
-         return( fgets( buff, 300, ifile) ? 0 : -1);
+         return( fgets( buff, 300, ifile) && atoi( buff) == ast_number
+                                 && ast_number > 0 ? 0 : -1);
          }
    fseek( ifile, 0L, SEEK_END);
    n_recs = ftell( ifile) / ASTORB_RECORD_LEN;
@@ -91,15 +93,17 @@ static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
          fseek( ifile, (loc + step) * ASTORB_RECORD_LEN, SEEK_SET);
          if( !fgets( buff, 300, ifile))
             return( -2);
-         if( buff[5] != ' ' || memcmp( buff + 7, obj_name, 6) < 0)
+         if( buff[5] != ' ' || strncmp( buff + 7, obj_name, 6) < 0)
             loc += step;
-         buff[40] = '\0';
          }
    fseek( ifile, loc * ASTORB_RECORD_LEN, SEEK_SET);
-   strcat( obj_name, " ");
-   while( memcmp( buff + 7, obj_name, strlen( obj_name)))
+   snprintf_err( key, sizeof( key), "%s ", obj_name);
+   do
+      {
       if( !fgets( buff, 300, ifile))
          return( -1);
+      }
+      while( strncmp( buff + 7, key, strlen( key)));
   return( 0);
 }
 
-- 
2.43.0


From 0d4c79df839b37d8df3ffd0a6c8888386bc9eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 113/126] fix: astephem lost the signs of declinations between
 -1 and 0 degrees,  and could show 60.00 arcminutes

---
 astephem.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index eff2207..fcadf6b 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -115,7 +115,8 @@ int main( const int argc, const char **argv)
    double asteroid_loc[4];
    double t = jan_1970 + (double)( time( NULL) / seconds_per_day);
    int day, month = 0, i, j, n_intervals = 20;
-   long year, ra_sec_tenths;
+   long year, ra_sec_tenths, dec_hundredths;
+   char dec_degrees[5];
    ELEMENTS class_elem;
    FILE *ifile = fopen( "astorb.dat", "rb");
    char tbuff[300], object_name[40];
@@ -228,13 +229,17 @@ int main( const int argc, const char **argv)
       if( ra < 0.) ra += 360.;
       dec = asin( z / dist) * 180. / PI;
       ra_sec_tenths = (long)(ra * 36000. / 15.);
+      dec_hundredths = (long)( fabs( dec) * 6000. + .5);    /* of arcminutes */
+      snprintf_err( dec_degrees, sizeof( dec_degrees), "%s%ld",
+                        (dec < 0. ? "-" : ""), dec_hundredths / 6000L);
                      /* ...and show me the data:  */
       snprintf_err( tbuff, sizeof( tbuff),
-              "%2d %s %4ld:  %2ldh%02ldm%02ld.%lds   %3d %5.2f'  %6.3f  %6.3f  %4.1f %4.1f\n",
+              "%2d %s %4ld:  %2ldh%02ldm%02ld.%lds   %3s %5.2f'  %6.3f  %6.3f  %4.1f %4.1f\n",
               day, set_month_name( month, NULL), year,
               ra_sec_tenths / 36000L, (ra_sec_tenths / 600L) % 60L,
               (ra_sec_tenths / 10L) % 60L, ra_sec_tenths % 10L,
-              (int)dec, 60. * (fabs( dec) - floor( fabs( dec))), dist,
+              dec_degrees,
+              (double)( dec_hundredths % 6000L) / 100., dist,
               asteroid_loc[3], mag, elong * 180. / PI);
       if( i % 24 == 0)
          printf( "                  RA             dec     dist    radius  mag\n");
-- 
2.43.0


From 8e69b0cc56722c7caf0326bcb2c9ed2d4882e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 114/126] fix: TT from Martian true solar time was good to only
 .4 millisecond,  not to machine precision

---
 marstime.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marstime.cpp b/marstime.cpp
index 6207c0e..0f96529 100644
--- a/marstime.cpp
+++ b/marstime.cpp
@@ -130,7 +130,7 @@ double mars_true_solar_minus_mean_solar_time( const double jd)
 /*    However,  if we compute the Martian EOT using approx_tt,  we'll  */
 /* get a passably correct EOT and can use it to compute a better TT.   */
 /* And we can then compute the EOT using this better TT to get a still */
-/* better TT.  These two iterations of computing the EOT are enough to */
+/* better TT.  Three iterations of computing the EOT are enough to     */
 /* get a "real" TT that's good to machine precision.                   */
 
 double mtst_at_airy_to_tt( const double mtst)
@@ -139,7 +139,7 @@ double mtst_at_airy_to_tt( const double mtst)
    double rval = approx_tt;
    int iter;
 
-   for( iter = 2; iter; iter--)
+   for( iter = 3; iter; iter--)
       {
       const double eqn_of_time =
               mars_true_solar_minus_mean_solar_time( rval);
-- 
2.43.0


From 4634206dde4d1bd9dac1a3569b75f8aa802f3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 115/126] fix: Martian times within half a millisecond of
 midnight were shown as 24:00:00.000

---
 marstime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marstime.cpp b/marstime.cpp
index 0f96529..8675a47 100644
--- a/marstime.cpp
+++ b/marstime.cpp
@@ -153,7 +153,9 @@ double mtst_at_airy_to_tt( const double mtst)
 static void format_time( const double day, char *buff)
 {
    const double time_of_day = day - floor( day);
-   const int n_millisec = (int)( time_of_day * 24. * 60. * 60. * 1000. + .5);
+   const int millisec_per_day = 24 * 60 * 60 * 1000;
+   const int n_millisec = (int)( time_of_day * (double)millisec_per_day + .5)
+                              % millisec_per_day;
 
    snprintf_err( buff, 13, "%02d:%02d:%02d.%03d",
             n_millisec / (60 * 60 * 1000),      /* hour */
-- 
2.43.0


From 9844bd468cf7f1cf287adeab6d2be770563b36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 116/126] fix: integer divisions in Schlyter's near-parabolic
 formula lost most of its terms

---
 landgraf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/landgraf.cpp b/landgraf.cpp
index f145e63..41063b5 100644
--- a/landgraf.cpp
+++ b/landgraf.cpp
@@ -73,9 +73,9 @@ static double paul_schlyter_soln( const double e, const double q, const double d
    const double W2 = W * W;
    const double f = (1 - e) / (1 + e);
 
-   const double a1 = (2/3) + .4 * W2;
+   const double a1 = 2./3. + .4 * W2;
    const double a2 = 7./5. + W2 * (33./35. + 37./175. * W2);
-   const double a3 = W2 * ( (432/175) + W2 * ((956/1125) + (84/1575) * W2));
+   const double a3 = W2 * (432./175. + W2 * (956./1125. + W2 * (84./1575.)));
 
    const double C = W2 / (1 + W2);
    const double g = f * C*C;
-- 
2.43.0


From e1e20d7de5ca7610efa35b4c7e67cd77c7c8ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 117/126] fix: parallax took longitudes and latitudes within
 two degrees of zero for x and y in earth radii,  whatever the altitude

---
 parallax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallax.cpp b/parallax.cpp
index 932152a..c49a062 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -196,7 +196,7 @@ static void set_location_three_params( mpc_code_t *loc, double p1, double p2, do
       p2 /= EARTH_MAJOR_AXIS_IN_METERS;
       p3 /= EARTH_MAJOR_AXIS_IN_METERS;
       }
-   if( fabs( p1) < 2. && fabs( p2) < 2.)
+   if( fabs( p1) < 2. && fabs( p2) < 2. && fabs( p3) < 2.)
       {
       const double rho_cos_phi = sqrt( p1 * p1 + p2 * p2);
 
-- 
2.43.0


From 0baea706019692c752fb1923f029699df6af43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 118/126] fix: parallax's help gave longitude and latitude in
 the wrong order

---
 parallax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallax.cpp b/parallax.cpp
index c49a062..40dab54 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -215,7 +215,7 @@ static void set_location_three_params( mpc_code_t *loc, double p1, double p2, do
 
 static void error_exit( void)
 {
-   printf( "Run 'parallax' with three arguments (latitude, longitude, altitude)\n"
+   printf( "Run 'parallax' with three arguments (longitude, latitude, altitude)\n"
            "and they will be converted to parallax constants.  Run with two arguments\n"
            "(rho_cos_phi, rho_sin_phi) and the corresponding latitude and altitude\n"
            "will be computed and shown.  Run with one argument (MPC obscode) and\n"
-- 
2.43.0


From 3e2f0723f8557f14b42bbae7ccc4738632312741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:16 +0000
Subject: [PATCH 119/126] fix: csv2ades cut off the exponents of small
 correlations,  so -9.9612345E-4 became -9.9612345

---
 csv2ades.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv2ades.c b/csv2ades.c
index c6c9dee..7e74035 100644
--- a/csv2ades.c
+++ b/csv2ades.c
@@ -125,7 +125,7 @@ static void csv_to_ades( const char *ibuff, const char *header,
       printf( "    <dec>%.9f</dec>\n",         atof( get_csv( tbuff, ibuff, header, "dec,", 99)));
       printf( "    <rmsRA>%.5f</rmsRA>\n",     atof( get_csv( tbuff, ibuff, header, "ra_error_random,", 99)) / 1000.);
       printf( "    <rmsDec>%.5f</rmsDec>\n",   atof( get_csv( tbuff, ibuff, header, "dec_error_random,", 99)) / 1000.);
-      printf( "    <rmsCorr>%s</rmsCorr>\n", get_csv( tbuff, ibuff, header, "ra_dec_correlation_random,", 10));
+      printf( "    <rmsCorr>%.8f</rmsCorr>\n",  atof( get_csv( tbuff, ibuff, header, "ra_dec_correlation_random,", 89)));
       printf( "    <astCat>Gaia3</astCat>\n");
       if( strstr( header, "g_mag,"))   /* FPR doesn't have magnitude data */
          {
-- 
2.43.0


From 949022681df9bd640ed71b1fa26d68e706f3c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:16 +0000
Subject: [PATCH 120/126] fix: mpc_time read past the end of IDs of fewer than
 eight characters

---
 mpc_time.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpc_time.c b/mpc_time.c
index 556fc8b..856c5ef 100644
--- a/mpc_time.c
+++ b/mpc_time.c
@@ -78,7 +78,8 @@ static int show_usage( void)
 
 int main( const int argc, const char **argv)
 {
-   const char *id = (argc == 2 ? argv[1] : "            ");
+   const bool id_ok = (argc == 2 && strlen( argv[1]) >= 8);
+   const char *id = (id_ok ? argv[1] : "            ");
    const int ymd = get_mutant_hex_value( id, 3);
    const int hms = get_mutant_hex_value( id + 3, 3);
    const int millisec = get_mutant_hex_value( id + 6, 2);
@@ -88,7 +89,7 @@ int main( const int argc, const char **argv)
    const int n_days = days_in_month( month, year, CALENDAR_GREGORIAN);
    char buff[80];
 
-   if( argc != 2)
+   if( !id_ok)
       return( show_usage( ));
    snprintf( buff, sizeof( buff), "%04d-%02d-%02d %02d:%02d:%02d.%03d",
             year, month, day,
-- 
2.43.0


From 15fcd5d9c3bcea451ef4fa1c8f901c2bbf4b5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 121/126] fix: long command lines overflowed a buffer in 'jd'

---
 jd.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jd.cpp b/jd.cpp
index 23ba92b..4c23248 100644
--- a/jd.cpp
+++ b/jd.cpp
@@ -28,6 +28,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #include "watdefs.h"
 #include "date.h"
 #include "afuncs.h"
+#include "stringex.h"
 
 #ifdef __WATCOMC__
 #define floorl floor
@@ -221,8 +222,8 @@ int main( int argc, char **argv)
       else
          {
          if( *buff)
-            strcat( buff, " ");
-         strcat( buff, argv[i]);
+            strlcat_error( buff, " ");
+         strlcat_error( buff, argv[i]);
          }
 
    if( !*buff)
-- 
2.43.0


From 4f36347c62a053d6a756581fb5b3674edb416641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:35 +0000
Subject: [PATCH 122/126] fix: 'chinese' lost the length of an intercalary
 twelfth month

---
 chinese.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chinese.cpp b/chinese.cpp
index f3e7293..460e205 100644
--- a/chinese.cpp
+++ b/chinese.cpp
@@ -101,13 +101,15 @@ static void dump_data( char *text[], const int n_found)
          const long jd = atol( text[i]);
          const int prev_month = (month + 10) % 12 + 1;
          const int prev_year = year - (prev_month == 12);
+         const bool is_intercalary = (n_found == 25 && !intercalary_month
+                                       && text[i + 1][8] == ' ');
 
          if( jd - prev_jd == 30L)
             if( prev_year >= year0 && prev_year < year0 + n_years)
                ydata[prev_year - year0].mask |= bitmask;
          bitmask <<= 1;
 
-         if( month == 1 && intercalary_month != 1)
+         if( month == 1 && !is_intercalary)
             {           /* it's the for-real first month of the year: */
             const long offset = jd - (year * 365L + year / 4L + 757861L);
 
@@ -116,7 +118,7 @@ static void dump_data( char *text[], const int n_found)
                ydata[year - year0].offset = (unsigned char)offset;
             }
 
-         if( n_found == 25 && !intercalary_month && text[i + 1][8] == ' ')
+         if( is_intercalary)
             {
             snprintf_err( text[i] + 31, 12, "%4di%5d\n", prev_month, prev_year);
             intercalary_month = prev_month;
-- 
2.43.0


From a45383d5e21179eb2d51f2c72d7e6e1d2d31f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:35 +0000
Subject: [PATCH 123/126] fix: 'chinese' made a wrong table if its first year
 was zero

---
 chinese.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chinese.cpp b/chinese.cpp
index 460e205..81eade9 100644
--- a/chinese.cpp
+++ b/chinese.cpp
@@ -76,6 +76,7 @@ YEAR_DATA
 #pragma pack()
 
 int16_t n_years, year0;
+bool year0_set = false;
 uint16_t bitmask = 1u;
 long prev_jd;
 
@@ -90,8 +91,11 @@ static void dump_data( char *text[], const int n_found)
       printf( "n_found = %d\n", n_found);
       exit( 0);
       }
-   if( !year0)               /* Remember,  we get the last month of the */
+   if( !year0_set)           /* Remember,  we get the last month of the */
+      {
       year0 = (short)( year + 1);    /* previous year... skip it */
+      year0_set = true;
+      }
 
    printf( "\n");
    for( i = 0; i < n_found; i++)
-- 
2.43.0


From ada1565a3f22ac2b7f25db60762258ddc564d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 124/126] fix: 'calendar' crashed, or refused, if given only a
 year

---
 calendar.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/calendar.cpp b/calendar.cpp
index a4e714f..20991a8 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -681,7 +681,10 @@ int main( const int argc, const char **argv)
    if( argc == 1)
       error_exit( -2);
    year = atoi( argv[1]);
-   month = atoi( argv[2]);
+   if( argc == 2 || argv[2][0] == '-')    /* only a year was given */
+      dollhouse = 1;
+   else
+      month = atoi( argv[2]);
    if( month > year)       /* allow for possible reversed entry */
       {
       month = year;
-- 
2.43.0


From 477c7eda63bf7b7c0e97fbda7452dadc2634b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 125/126] fix: parentheses in a line of 'dates.txt' could
 overflow a buffer in 'calendar'

---
 calendar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calendar.cpp b/calendar.cpp
index 20991a8..14c3006 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -249,9 +249,10 @@ static char **grab_dates( const int month, const int year)
 
       if( dates_file)
          {
-         char buff[80];
+         const int max_line_len = 80;
+         char buff[320];      /* room to quadruple,  for parentheses */
 
-         while( fgets( buff, sizeof( buff), dates_file))
+         while( fgets( buff, max_line_len, dates_file))
             if( !memcmp( months[month - 1], buff, 3))
                {
                unsigned loc = 7, n_days = 1;
-- 
2.43.0


From c79b111264966aa5eed6ee105e46ada8e73ef8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 126/126] fix: more than ten days on a line of 'dates.txt'
 overflowed an array in 'calendar'

---
 calendar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calendar.cpp b/calendar.cpp
index 14c3006..7efccf6 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -256,7 +256,7 @@ static char **grab_dates( const int month, const int year)
             if( !memcmp( months[month - 1], buff, 3))
                {
                unsigned loc = 7, n_days = 1;
-               unsigned days[10];
+               unsigned days[31];
 
                days[0] = (unsigned)atoi( buff + 3);
                if( buff[6] == '/')     /* See 'dates.txt' for an explanation */
@@ -266,7 +266,7 @@ static char **grab_dates( const int month, const int year)
                      (days[0])++;
                   loc = 9;
                   }
-               while( buff[loc - 1] == ',')
+               while( buff[loc - 1] == ',' && n_days < 31)
                   {
                   int bytes_scanned;
 
-- 
2.43.0

