from django.conf.urls import url


def dispatch(request):
    return request.META['verif.view'](request)


urlpatterns = [url(r'', dispatch)]
